"""State, parameters, layouts and the step function shared by the checks.

The step function is a transition of the real model: it calls the repository's own component
functions in the documented order (that the driver does the same is property C30)."""
import copy, itertools
import numpy as np
import pandas as pd
from .repo import core, riv, coast, mor

NAN = float('nan')


def phys(**kw):
    p = dict(Kcoef=0.017, RhoSed=2650., RhoSea=1025., RhoRiv=1000., VoidRatio=0.4, Gravity=9.81, GammaRatio=0.5,
             WaveDataDepth=10., ClosureDepth=5., BeachSlope=0.13, RiverSlope=0.003, GrainSize=0.018,
             CritShieldsStress=0.0495, MPM_coef=3.97, MPM_exp=1.5, UpstreamLength=100., RiverWidth=60.,
             RoughnessManning=0.04, GrainRoughness=0.035, WidthDepthRatio=30., BackshoreElev=10.,
             MaxOutletElev=-2., OT_coef=0.00015, OT_exp=2., BeachTopElev=2., SpitWidth=10., TargetBarHeight=5.5,
             TargetBarWidth=90., MinOutletWidth=1., OutletSedSpreadDist=100., OutletBankEroFac=0.5,
             BarrierPermeability=0.001, ShorelineErosionRate=0.0)
    p.update(kw)
    p['K2coef'] = p['Kcoef'] / ((p['RhoSed'] - p['RhoSea']) * p['Gravity'] * (1 - p['VoidRatio']))
    p['BreakerCoef'] = 8.0 / (p['RhoSea'] * p['Gravity'] ** 1.5 * p['GammaRatio'] ** 2)
    p['BarRatSlope'] = (p['TargetBarHeight'] - p['BeachTopElev']) / (p['TargetBarWidth'] - p['SpitWidth'])
    p['BarRatInt'] = p['BeachTopElev'] - p['BarRatSlope'] * p['SpitWidth']
    return p


def nums(**kw):
    n = dict(Dx=20., Beta=0., Theta=0.7, Psi=0.4, ErrTol=1e-3, MaxIt=30, WarnTol=0.1, MaxMorChange=0.1)
    n.update(kw)
    return n


def times(hyd=5., mn=15., mx=3840., start='2000-09-01', end='2000-09-02'):
    S = lambda s: pd.Timedelta(seconds=s)
    return dict(StartTime=pd.to_datetime(start), EndTime=pd.to_datetime(end), HydDt=S(hyd), MorDtMin=S(mn), MorDtMax=S(mx))


def td(s):
    return pd.Timedelta(seconds=s)


FIELDS = ('ShoreX ShoreY ShoreZ OutletEndX OutletEndWidth OutletEndElev RiverElev RivDep RivVel LagoonWL LagoonVel '
          'OutletDep OutletVel OutletEndDep OutletEndVel').split()


class State:
    Closed = False

    def copy(self):
        s = State()
        for f in FIELDS:
            setattr(s, f, np.array(getattr(self, f), dtype=float))
        s.Closed = bool(self.Closed)
        return s

    def key(self, dec=6):
        return (self.Closed,) + tuple(np.round(np.asarray(getattr(self, f), float) + 0.0, dec).tobytes() for f in
                                      ('ShoreY', 'ShoreZ', 'OutletEndX', 'OutletEndWidth', 'OutletEndElev', 'RiverElev'))

    def dump(self):
        d = {f: np.asarray(getattr(self, f)).tolist() for f in FIELDS}
        d['Closed'] = self.Closed
        return d

    @property
    def x0(self):
        return int(np.where(self.ShoreX == 0)[0][0])


def layout(nl=4, nr=4, dx=20., us=1, ds=2.5, closed=False, lag=(-2, 2), lagw=40., outw=12., outbed=-0.5, endw=12.,
           endbed=-1., crest=3.5, inner=None, lagbed=-1., shore=0., spit=10., barrier=60., cliff=None, wl=1.0,
           river=(-0.2, -0.6, -1.0), rivdep=2., vel=0.5, relic=None, dep=None):
    """A consistent state.  us/ds: outlet ends in units of dx (None with closed: no outlet).
    The online (or relic, when closed) channel occupies the transects between us and ds.
    relic: list of transect offsets carrying an additional disconnected relic channel."""
    s = State()
    s.ShoreX = np.arange(-nl, nr + 1) * dx
    n = s.ShoreX.size
    s.ShoreY = np.full((n, 5), NAN)
    s.ShoreZ = np.full((n, 4), NAN)
    s.ShoreY[:, 0] = shore
    s.ShoreY[:, 3] = shore - barrier
    idx = np.arange(-nl, nr + 1)
    s.ShoreY[:, 4] = shore - barrier
    inlag = (idx >= lag[0]) & (idx <= lag[1])
    s.ShoreY[inlag, 4] -= lagw
    if cliff is not None:
        s.ShoreY[~inlag, 3] = s.ShoreY[~inlag, 4] = cliff
    s.ShoreZ[:, 0] = crest
    s.ShoreZ[:, 3] = lagbed
    chan = np.zeros(n, bool)
    if us is not None:
        lo, hi = min(us, ds), max(us, ds)
        chan = (idx >= lo) & (idx <= hi)
        s.OutletEndX = np.array([us * dx, ds * dx], float)
    else:
        s.OutletEndX = np.array([NAN, 0.0])
    allchan = chan.copy()
    for r in (relic or []):
        allchan[idx == r] = True
    s.ShoreY[allchan, 1] = s.ShoreY[allchan, 0] - spit
    s.ShoreY[allchan, 2] = s.ShoreY[allchan, 1] - outw
    s.ShoreZ[allchan, 1] = outbed
    s.ShoreZ[allchan, 2] = crest if inner is None else inner
    s.OutletEndWidth = np.asarray(float(endw))
    s.OutletEndElev = np.asarray(float(endbed))
    s.RiverElev = np.array(river, float)
    s.RivDep = np.full(s.RiverElev.size, float(rivdep))
    s.RivVel = np.full(s.RiverElev.size, float(vel))
    s.LagoonWL = np.full(n, float(wl))
    s.LagoonVel = np.full(n, float(vel))
    s.OutletDep = np.full(n, NAN)
    s.OutletVel = np.full(n, NAN)
    s.Closed = closed
    if closed:
        s.OutletEndDep = np.full(2, NAN)
        s.OutletEndVel = np.full(2, NAN)
    else:
        s.OutletDep[chan] = (wl - outbed) if dep is None else dep
        s.OutletVel[chan] = vel
        s.OutletEndDep = np.full(2, max(wl - endbed, 0.5))
        s.OutletEndVel = np.full(2, float(vel))
    return s


def mirror(s):
    """Mirror image of a state about the river line."""
    m = s.copy()
    m.ShoreX = -s.ShoreX[::-1] + 0.0
    for f in ('ShoreY', 'ShoreZ', 'LagoonWL', 'LagoonVel', 'OutletDep', 'OutletVel'):
        setattr(m, f, np.array(getattr(s, f))[::-1].copy())
    m.OutletEndX = -s.OutletEndX + 0.0
    return m


def assemble(s, P, N):
    return riv.assembleChannel(s.ShoreX, s.ShoreY, s.ShoreZ, s.OutletEndX, s.OutletEndWidth, s.OutletEndElev,
                               s.Closed, s.RiverElev, s.RivDep, s.RivVel, s.LagoonWL, s.LagoonVel, s.OutletDep,
                               s.OutletVel, s.OutletEndDep, s.OutletEndVel, N['Dx'], P)


class Chan:
    """The assembled channel, by name."""
    def __init__(self, t):
        (self.dx, self.z, self.B, self.LagArea, self.LagLen, self.h, self.V, self.OnlineLagoon, self.OutletChanIx,
         self.Flag, self.Closed) = t


def steady(s, P, N, Q, sea):
    """Initialise the hydraulics of a state with the steady profile, as the driver does."""
    c = Chan(assemble(s, P, N))
    if c.Closed:
        h = np.maximum(sea + 0.5, c.z + 0.3) - c.z
        V = np.full(c.z.size, 1e-4)
    else:
        h, V = riv.solveSteady(c.dx, c.z, c.B, P['RoughnessManning'], Q, sea, N)
    store(s, c, h, V)
    s.Closed = bool(c.Closed)
    return s


def store(s, c, h, V):
    s.RivDep, s.RivVel = h[c.Flag == 0].copy(), V[c.Flag == 0].copy()
    (s.LagoonWL, s.LagoonVel, s.OutletDep, s.OutletVel, s.OutletEndDep, s.OutletEndVel) = \
        riv.storeHydraulics(h, V, c.OnlineLagoon, c.OutletChanIx, c.Flag, s.ShoreZ[:, 3], c.Closed)


class Force:
    """Forcing of one step: river flow and sea level (constant over the step unless arrays) and waves."""
    def __init__(self, Q=50., sea=0.3, wp=8000., T=8., wl=60., dir=0.1, Hs=1.5):
        self.Q, self.sea, self.wp, self.T, self.wl, self.dir, self.Hs = Q, sea, wp, T, wl, dir, Hs

    def mirror(self):
        return Force(self.Q, self.sea, self.wp, self.T, self.wl, -self.dir, self.Hs)


class Rec:
    pass


def update(s, c, LST, Bed, CST, OWP, MorDt, P, T, N):
    """Real morphological update on state s in place (returns MorDt, Breach)."""
    return mor.updateMorphology(s.ShoreX, s.ShoreY, s.ShoreZ, s.OutletEndX, s.OutletEndWidth, s.OutletEndElev,
                                s.RiverElev, c.OnlineLagoon, c.OutletChanIx, s.LagoonWL, s.OutletDep,
                                c.B, c.h, c.dx, c.Flag, c.Closed, LST, Bed, CST, OWP, MorDt, P, T, N)


def step(s, f, P, N, T, MorDt, hyd='unsteady'):
    """One pass of the documented loop.  s is advanced in place; returns a record of what happened."""
    r = Rec()
    c = Chan(assemble(s, P, N))
    HydDt = min(T['HydDt'], MorDt)
    nh = int(MorDt // HydDt)
    Q = np.full(nh, float(f.Q)) if np.isscalar(f.Q) else np.asarray(f.Q, float)
    sea = np.full(nh, float(f.sea)) if np.isscalar(f.sea) else np.asarray(f.sea, float)
    r.fallback = False
    if hyd == 'unsteady':
        try:
            riv.solveFullPreissmann(c.z, c.B, c.LagArea, c.LagLen, c.Closed, c.h, c.V, c.dx, HydDt, Q, sea, N, P)
        except Exception:
            r.fallback = True
            c.h, c.V = riv.solveSteady(c.dx, c.z, c.B, P['RoughnessManning'], Q[-1], sea[-1], N)
    s.Closed = bool(c.Closed)
    store(s, c, c.h, c.V)
    r.chan = c
    r.Bed = riv.calcBedload(c.z, c.B, c.h, c.V, c.dx, P, N['Psi'])
    r.LST = coast.longShoreTransport(s.ShoreY, N['Dx'], f.wp, f.T, f.wl, f.dir, P)
    r.Runup = coast.runup(f.T, f.Hs, P['BeachSlope'])
    r.CST, r.OWP = coast.overtopping(r.Runup, sea[-1], s.ShoreY, s.ShoreZ, P)
    r.before = s.copy()
    r.MorDt, r.Breach = update(s, c, r.LST, r.Bed, r.CST, r.OWP, MorDt, P, T, N)
    if r.Breach:
        s.Closed = False
    return r


def close(a, b, rtol=1e-9, atol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    na, nb = np.isnan(a), np.isnan(b)
    if not np.array_equal(na, nb):
        return False
    return bool(np.all(np.abs(a - b)[~na] <= atol + rtol * np.maximum(np.abs(a), np.abs(b))[~na]))


def same_state(a, b, rtol=1e-9, atol=1e-9, fields=FIELDS):
    """Names of fields that differ."""
    bad = [f for f in fields if not close(getattr(a, f), getattr(b, f), rtol, atol)]
    if bool(a.Closed) != bool(b.Closed):
        bad.append('Closed')
    return bad


def product(**dims):
    ks = list(dims)
    return [dict(zip(ks, v)) for v in itertools.product(*[dims[k] for k in ks])]
