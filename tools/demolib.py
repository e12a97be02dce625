"""Text put in front of demos: a small model state built from scratch and its components."""
LIB = '''import os, sys, logging
import numpy as np, pandas as pd
logging.disable(logging.CRITICAL)
from hapuamod import core, riv, coast, mor
NAN = float('nan')
P = dict(Kcoef=0.017, RhoSed=2650., RhoSea=1025., RhoRiv=1000., VoidRatio=0.4, Gravity=9.81, GammaRatio=0.5, WaveDataDepth=10.,
         ClosureDepth=5., BeachSlope=0.13, RiverSlope=0.003, GrainSize=0.018, CritShieldsStress=0.0495, MPM_coef=3.97, MPM_exp=1.5,
         UpstreamLength=100., RiverWidth=60., RoughnessManning=0.04, GrainRoughness=0.035, WidthDepthRatio=30., BackshoreElev=10.,
         MaxOutletElev=-2., OT_coef=0.00015, OT_exp=2., BeachTopElev=2., SpitWidth=10., TargetBarHeight=5.5, TargetBarWidth=90.,
         MinOutletWidth=1., OutletSedSpreadDist=100., OutletBankEroFac=0.5, BarrierPermeability=0.001, ShorelineErosionRate=0.0)
P['K2coef'] = P['Kcoef'] / ((P['RhoSed'] - P['RhoSea']) * P['Gravity'] * (1 - P['VoidRatio']))
P['BreakerCoef'] = 8.0 / (P['RhoSea'] * P['Gravity'] ** 1.5 * P['GammaRatio'] ** 2)
P['BarRatSlope'] = (P['TargetBarHeight'] - P['BeachTopElev']) / (P['TargetBarWidth'] - P['SpitWidth'])
P['BarRatInt'] = P['BeachTopElev'] - P['BarRatSlope'] * P['SpitWidth']
N = dict(Dx=20., Beta=0., Theta=0.7, Psi=0.4, ErrTol=1e-3, MaxIt=30, WarnTol=0.1, MaxMorChange=5.)
td = lambda s: pd.Timedelta(seconds=s)
T = dict(StartTime=pd.Timestamp('2000-09-01'), EndTime=pd.Timestamp('2000-09-02'), HydDt=td(5), MorDtMin=td(15), MorDtMax=td(15))


class S:
    """Barrier with lagoon on transects lag[0]..lag[1] and an outlet channel from us to ds (units of 20 m)."""
    def __init__(s, us, ds, lag=(-3, 3), nl=5, nr=5, closed=False, wl=1., bed=-1., chan=None, crest=3.5):
        i = np.arange(-nl, nr + 1)
        s.X = i * 20.
        n = i.size
        s.Y, s.Z = np.full((n, 5), NAN), np.full((n, 4), NAN)
        s.Y[:, 0] = 0.
        s.Y[:, 3] = s.Y[:, 4] = -60.
        inl = (i >= lag[0]) & (i <= lag[1])
        s.Y[inl, 4] = -100.
        s.Z[:, 0], s.Z[:, 3] = crest, bed
        s.on = np.zeros(n, bool)
        if us is not None:
            s.on = (i >= min(us, ds)) & (i <= max(us, ds))
        ch = s.on | np.isin(i, chan or [])
        s.Y[ch, 1], s.Y[ch, 2] = -12., -24.
        s.Z[ch, 1], s.Z[ch, 2] = -.5, crest
        s.EX = np.array([NAN, 0.]) if us is None else np.array([us * 20., ds * 20.])
        s.EW, s.EZ = np.asarray(12.), np.asarray(-1.)
        s.R = np.array([-.2, -.6, -1.])
        s.RD, s.RV = np.full(3, 2.), np.full(3, .5)
        s.LW, s.LV = np.full(n, wl), np.full(n, .5)
        s.OD, s.OV = np.where(s.on, wl + .5, NAN), np.where(s.on, .5, NAN)
        s.ED, s.EV = np.full(2, wl + 1.), np.full(2, .5)
        s.Closed = closed
        if closed:
            s.OD[:], s.OV[:], s.ED[:], s.EV[:] = NAN, NAN, NAN, NAN
        s.x0 = nl

    def asm(s, dx=20.):
        return riv.assembleChannel(s.X, s.Y, s.Z, s.EX, s.EW, s.EZ, s.Closed, s.R, s.RD, s.RV, s.LW, s.LV, s.OD, s.OV, s.ED, s.EV, dx, P)

    def move(s, LST=None, Bed=None, CST=None, OW=None, dt=15., n=None, t=None, p=None):
        """One morphological update with the given transports (default none)."""
        c = s.asm()
        s.Closed = bool(c[10])
        s.LW, s.LV, s.OD, s.OV, s.ED, s.EV = riv.storeHydraulics(c[5], c[6], c[7], c[8], c[9], s.Z[:, 3], c[10])
        LST = np.zeros(s.X.size - 1) if LST is None else np.asarray(LST, float)
        Bed = np.zeros(c[1].size - 1) if Bed is None else np.asarray(Bed, float)
        CST = np.zeros(s.X.size) if CST is None else np.asarray(CST, float)
        OW = np.zeros(s.X.size, bool) if OW is None else np.asarray(OW)
        r = mor.updateMorphology(s.X, s.Y, s.Z, s.EX, s.EW, s.EZ, s.R, c[7], c[8], s.LW, s.OD, c[2], c[5], c[0], c[9], c[10], LST, Bed,
                                 CST, OW, td(dt), p or P, t or T, n or N)
        if r[1]:
            s.Closed = False
        return r


def need(ok, msg):
    if not ok:
        print('FAILED', msg)
        sys.exit(1)
'''
CFG = '''import os, sys, logging
logging.disable(logging.CRITICAL)
import numpy as np, pandas as pd, netCDF4
from hapuamod import core, loadmod
BASE = """ModelName = 'Site'
[BoundaryConditions]
RiverFlow = Flow.csv
WaveConditions = Waves.csv
SeaLevel = Sea.csv
[SpatialInputs]
ShorelineLengthLeft = 100
ShorelineLengthRight = 100
BeachWidth = 60
[InitialConditions]
OutletWidth = 12
OutletBed = -1.0
LagoonBed = -1.0
BarrierElev = 3.5
[Time]
StartTime = '1 Sep 2000'
EndTime = '1 Sep 2000 00:10'
HydDt = 5
MorDtMin = 30
MorDtMax = 120
[PhysicalParameters]
Kcoef = 0.017
RhoSed = 2650
RhoSea = 1025
RhoRiv = 1000
VoidRatio = 0.4
Gravity = 9.81
GammaRatio = 0.5
WaveDataDepth = 10.0
ClosureDepth = 5.0
BeachSlope = 0.13
RiverSlope = 0.003
GrainSize = 0.018
CritShieldsStress = 0.0495
MPM_coef = 3.97
MPM_exp = 1.5
UpstreamLength = 60
RiverWidth = 30
RoughnessManning = 0.04
GrainRoughness = 0.035
WidthDepthRatio = 30
BackshoreElev = 10
MaxOutletElev = -2.0
OT_coef = 0.00015
OT_exp = 2
BeachTopElev = 2
SpitWidth = 10
TargetBarHeight = 5.5
TargetBarWidth = 90
MinOutletWidth = 1.0
OutletSedSpreadDist = 100.0
OutletBankEroFac = 0.5
BarrierPermeability = 0.001
[NumericalParameters]
Dx = 20
Beta = 0
Theta = 0.7
Psi = 0.4
ErrTol = 0.001
MaxIt = 30
WarnTol = 0.1
MaxMorChange = 0.1
[OutputOptions]
OutInt = 60
TsOutInt = 60
LogInt = 3600
PlotInt = 0
"""


def series(name, cols, rows):
    """rows: (minutes from the start of 1 Sep 2000, values...)"""
    t0 = pd.Timestamp('2000-09-01')
    with open(name, 'w') as f:
        f.write('DateTime,' + ','.join(cols) + '\\n')
        for r in rows:
            f.write((t0 + pd.Timedelta(minutes=r[0])).strftime('%d/%m/%Y %H:%M') + ',' + ','.join('%r' % v for v in r[1:]) + '\\n')


def forcing(Q=((-60, 40.), (60, 40.)), sea=((-60, .2), (60, .2)), waves=((-60, 8., 60., 2000., 10., .8), (60, 8., 60., 2000., 10., .8))):
    series('Flow.csv', ['Flow'], Q)
    series('Sea.csv', ['SeaLevel'], sea)
    series('Waves.csv', ['WavePeriod', 'Wlen_h', 'WavePower', 'EDir_h', 'Hsig_Offshore'], waves)


def config(name='S.cnf', extra='', **over):
    t = BASE
    import re
    for k, v in over.items():
        t, n = re.subn(r'(?m)^%s = .*$' % k, '' if v is None else '%s = %s' % (k, v), t)
        assert n == 1, k
    open(name, 'w').write(t + extra)
    return name


def need(ok, msg):
    if not ok:
        print('FAILED', msg)
        sys.exit(1)
'''
