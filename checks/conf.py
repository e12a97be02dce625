"""Writes small model setups (config, forcing series, spatial inputs) into scratch directories."""
import gc
import copy, os, shutil, tempfile
import numpy as np
import pandas as pd

BASE = {
 'BoundaryConditions': dict(RiverFlow='Flow.csv', WaveConditions='Waves.csv', SeaLevel='Sea.csv'),
 'SpatialInputs': dict(ShorelineLengthLeft=120, ShorelineLengthRight=160, BeachWidth=60),
 'InitialConditions': dict(OutletWidth=25, OutletBed=-1.0, LagoonBed=-1.0, BarrierElev=3.5),
 'Time': dict(StartTime="'1 Sep 2000'", EndTime="'1 Sep 2000 00:30'", HydDt=5, MorDtMin=15, MorDtMax=120),
 'PhysicalParameters': dict(Kcoef=0.017, RhoSed=2650, RhoSea=1025, RhoRiv=1000, VoidRatio=0.4, Gravity=9.81, GammaRatio=0.5,
        WaveDataDepth=10.0, ClosureDepth=5.0, BeachSlope=0.13, RiverSlope=0.003, GrainSize=0.018, CritShieldsStress=0.0495,
        MPM_coef=3.97, MPM_exp=1.5, UpstreamLength=100, RiverWidth=60, RoughnessManning=0.04, GrainRoughness=0.035,
        WidthDepthRatio=30, BackshoreElev=10, MaxOutletElev=-2.0, OT_coef=0.00015, OT_exp=2, BeachTopElev=2, SpitWidth=10,
        TargetBarHeight=5.5, TargetBarWidth=90, MinOutletWidth=1.0, OutletSedSpreadDist=100.0, OutletBankEroFac=0.5,
        BarrierPermeability=0.001, ShorelineErosionRate=0),
 'NumericalParameters': dict(Dx=20, Beta=0, Theta=0.7, Psi=0.4, ErrTol=0.001, MaxIt=30, WarnTol=0.1, MaxMorChange=0.1),
 'OutputOptions': dict(OutInt=600, TsOutInt=300, LogInt=3600),
}


def config(**over):
    """Config dict with overrides 'Section.Key' (None removes the key, a dict value makes a subsection)."""
    c = copy.deepcopy(BASE)
    for k, v in over.items():
        sec, key = k.split('.')
        if v is None:
            c.setdefault(sec, {}).pop(key, None)
        else:
            c.setdefault(sec, {})[key] = v
    return c


def text(c, name='Test model'):
    out = ["ModelName = '%s'" % name] if name is not None else []
    for sec, d in c.items():
        out.append('[%s]' % sec)
        subs = []
        for k, v in d.items():
            if isinstance(v, dict):
                subs.append((k, v))
            else:
                out.append('%s = %s' % (k, v))
        for k, v in subs:
            out.append('    [[%s]]' % k)
            out += ['    %s = %s' % kv for kv in v.items()]
    return '\n'.join(out) + '\n'


def stamp(minutes):
    return [(pd.Timestamp('2000-09-01') + pd.Timedelta(minutes=m)).strftime('%d/%m/%Y %H:%M') for m in minutes]


def series(d, name, minutes, cols):
    pd.DataFrame(cols, index=stamp(minutes)).to_csv(os.path.join(d, name), index_label='DateTime')


FLOW = ([-60, 10, 25, 90], [60., 60., 150., 110.])
SEA = ([-60, 5, 20, 50, 120], [.1, .5, -.1, .6, 0.])
WAVES = ([-180, 0, 30, 180], dict(WavePeriod=[6., 8., 9., 7.], Wlen_h=[50., 60., 70., 55.], WavePower=[10e3, 12e3, 8e3, 9e3],
                                  EDir_h=[10., -15., 20., 5.], Hsig_Offshore=[1.5, 2.5, 3., 2.]))


def setup(d, c=None, flow=FLOW, sea=SEA, waves=WAVES, name='Test model', fname='M.cnf'):
    """Write a setup into directory d; returns the config file path."""
    os.makedirs(d, exist_ok=True)
    if flow:
        series(d, 'Flow.csv', flow[0], {'Flow': flow[1]})
    if sea:
        series(d, 'Sea.csv', sea[0], {'SeaLevel': sea[1]})
    if waves:
        series(d, 'Waves.csv', waves[0], waves[1])
    f = os.path.join(d, fname)
    with open(f, 'w') as h:
        h.write(text(c or config(), name))
    return f


class Scratch:
    """Scratch directory that is the working directory while open."""
    def __enter__(self):
        self.old = os.getcwd()
        self.d = tempfile.mkdtemp(prefix='run', dir=os.environ.get('MC_SCRATCH'))
        os.chdir(self.d)
        return self.d

    def __exit__(self, *a):
        os.chdir(self.old)
        shutil.rmtree(self.d, ignore_errors=True)


NAMES = ('ModelName FlowTs WaveTs SeaLevelTs Origin ShoreNormDir ShoreX ShoreY ShoreZ RiverElev OutletEndX OutletEndWidth '
         'OutletEndElev RiverWL RiverVel LagoonWL LagoonVel OutletDep OutletVel OutletEndDep OutletEndVel Closed TimePars '
         'PhysicalPars NumericalPars OutputOpts').split()


class Loaded:
    def __init__(self, t):
        assert len(t) == len(NAMES), len(t)
        for n, v in zip(NAMES, t):
            setattr(self, n, v)


def load(f):
    from mc.repo import loadmod
    global _loads
    _loads += 1
    if _loads % 100 == 0:               # the loader leaves its shapefile readers open and they refer to themselves
        import shapefile
        for o in gc.get_objects():
            if type(o) is shapefile.Reader:
                o.close()
    return Loaded(loadmod.loadModel(f))


_loads = 0


def shapes(d, shore, river, back, cliff, outlet, conv):
    """Spatial inputs as shapefiles.  conv maps an (n, 2) array of local coordinates to map coordinates."""
    import shapefile
    for nm, pts in (('Shore', shore), ('Back', back), ('Cliff', cliff), ('Outlet', outlet)):
        w = shapefile.Writer(os.path.join(d, nm + '.shp'), shapeType=3)
        w.field('Id', 'N')
        w.line([conv(np.array(pts, float)).tolist()])
        w.record(1)
        w.close()
    w = shapefile.Writer(os.path.join(d, 'River.shp'), shapeType=1)
    w.field('Id', 'N')
    w.point(*conv(np.array([river], float))[0].tolist())
    w.record(1)
    w.close()


SPATIAL = {'SpatialInputs.ShorelineLengthLeft': None, 'SpatialInputs.ShorelineLengthRight': None, 'SpatialInputs.BeachWidth': None,
           'SpatialInputs.Shoreline': 'Shore.shp', 'SpatialInputs.RiverLocation': 'River.shp',
           'SpatialInputs.BarrierBackshore': 'Back.shp', 'SpatialInputs.CliffToe': 'Cliff.shp',
           'SpatialInputs.OutletLocation': 'Outlet.shp'}


def rotate(theta, shift):
    """Local (right, seaward) coordinates to map coordinates with the seaward axis at bearing theta."""
    r = np.array([np.sin(theta + np.pi / 2), np.cos(theta + np.pi / 2)])
    s = np.array([np.sin(theta), np.cos(theta)])
    return lambda p: np.asarray(shift) + p[:, :1] * r + p[:, 1:] * s
