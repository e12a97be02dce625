"""C33 animations of results files: every frame against a drawing of the record it stands for."""
import contextlib, io, logging, os, runpy, sys
import numpy as np
import pandas as pd
import matplotlib
import matplotlib.pyplot as plt
from matplotlib import animation
from mc.run import Space, Viol
from mc.model import phys, nums, assemble, Chan
from mc.repo import visualise, out
from hapuamod import animate
from checks import morph
from checks.C20 import put, START
from checks.C29 import View, ROWS, shown, differ, figure_of, Quiet
from checks.conf import Scratch

LEVEL = 'model_checking'
ASSUMPTIONS = ['frames are compared by the data of their lines, polygons, arrows and titles, the movie encoder is replaced by one that records them',
               'an explicit end timestep inside the file may be taken as the last frame or as the first left out']
P = phys()
TOL = 1e-4                      # records are single precision
FRAMES = []


@animation.writers.register('recording')
class Recorder(animation.AbstractMovieWriter):
    @classmethod
    def isAvailable(cls):
        return True

    def setup(self, fig, outfile, dpi=None):
        super().setup(fig, outfile, dpi=dpi)
        FRAMES.append(dict(file=str(outfile), fps=self.fps, frames=[]))

    def grab_frame(self, **kw):
        ax = self.fig.axes[0]
        FRAMES[-1]['frames'].append((shown(self.fig), ax.get_xlim(), ax.get_ylim()))

    def finish(self):
        open(self.outfile, 'w').write('movie')


def write(f, ks, mins):
    s0 = View(ks[0]).s
    out.newOutFile(f, 'Test', START, s0.ShoreX, 20., s0.RiverElev, [7., -8.], .5, P, True)
    for k, t in zip(ks, mins):
        put(f, START + pd.Timedelta(minutes=t), View(k).s)


def expect(kind, k, t, aoi):
    """The drawing of one record."""
    v = View(k)
    s, when = v.s, START + pd.Timedelta(minutes=t)
    a = dict(AreaOfInterest=aoi) if aoi else {}
    if kind == 'map':
        h = visualise.modelView(s.ShoreX, s.ShoreY, s.OutletEndX, s.OutletEndWidth, v.ix, P['RiverWidth'], P['SpitWidth'], PlotTime=when, Closed=v.closed, **a)
    elif kind == 'long':
        c = v.c
        h = visualise.longSection(c.dx, c.z, c.B, c.h, c.V, PlotTime=when, **a)
    else:
        h = visualise.newTransectFig(s.ShoreX, s.ShoreY, s.ShoreZ, s.LagoonWL, v.owl, .3, P['BeachSlope'], P['BackshoreElev'], P['ClosureDepth'], P['BeachTopElev'],
                                     float(kind), **a)
        visualise.updateTransectFig(h, s.ShoreY, s.ShoreZ, s.LagoonWL, v.owl, .3, PlotTime=when)
    f = figure_of(h)
    r = shown(f), f.axes[0].get_xlim(), f.axes[0].get_ylim()
    plt.close(f)
    return r


def title(kind, t):
    return (START + pd.Timedelta(minutes=t)).strftime('%d-%b-%Y %H:%M' if kind == 'map' else '%d/%m/%y %H:%M')


def run(kind, start, end, res, fps, aoi, cli):
    """Makes the animation through the function or the command line; gives the recorded movies."""
    del FRAMES[:]
    if not cli:
        kw = {}
        if start is not None: kw['StartTimestep'] = start
        if end is not None: kw['EndTimestep'] = end
        if res is not None: kw['ResampleInt'] = res
        if fps is not None: kw['FrameRate'] = fps
        if aoi is not None: kw['AreaOfInterest'] = aoi
        if kind == 'long': kw['Longsection'] = True
        elif kind != 'map': kw['TransectX'] = float(kind)
        animate.main('res.nc', 'a.mp4', **kw)
    else:
        long = cli == 'long'
        av = ['animate', 'res.nc', 'a.mp4']
        for v, o, oo in ((start, '-s', '--StartTimestep'), (end, '-e', '--EndTimestep'), (res, '-r', '--ResampleInt'), (fps, '-f', '--FrameRate')):
            if v is not None:
                av += [oo if long else o, str(v)]
        if aoi is not None:
            av += ['--AreaOfInterest' if long else '-a'] + [repr(x) for x in aoi]
        if kind == 'long':
            av += ['--Longsection' if long else '-l']
        elif kind != 'map':
            av += ['--TransectX' if long else '-t', str(kind)]
        old, root = sys.argv, logging.getLogger()
        hs = list(root.handlers)
        saved = sys.modules.pop('hapuamod.animate', None)
        try:
            sys.argv = av
            with contextlib.redirect_stderr(io.StringIO()):
                runpy.run_module('hapuamod.animate', run_name='__main__', alter_sys=True)
        finally:
            sys.argv = old
            root.handlers[:] = hs
            sys.modules['hapuamod.animate'] = saved
    return list(FRAMES)


def same(a, b, aoi):
    d = differ(a[0], b[0], TOL)
    if d:
        return d
    if aoi and not (np.allclose(a[1], aoi[:2]) and np.allclose(a[2], aoi[2:])):
        return 'shows the area %s %s instead of %s' % (a[1], a[2], aoi)
    return None


def movies(c):
    kind, ks, n = c['kind'], c['records'], len(c['records'])
    mins = [0, 13, 14, 60, 1441][:n]
    tr, states = 0, []
    aois = [None, {'map': (-50., 60., -40., 80.), 'long': (0., 90., -3., 4.)}.get(kind, (-60., 30., -6., 5.))]
    matplotlib.rcParams['animation.writer'] = 'recording'
    with Scratch(), Quiet():
        write('res.nc', ks, mins)
        before = open('res.nc', 'rb').read()
        want = {a: [expect(kind, k, t, a) for k, t in zip(ks, mins)] for a in aois}
        for a in aois:
            for k, t, w in zip(ks, mins, want[a]):
                if not any(x[1] == 'title' and title(kind, t) in x[2] for x in w[0]):
                    raise Viol('drawing of a record does not show its time: %s' % [x[2] for x in w[0] if x[1] == 'title'])
        opts = [(st, en, re) for st in [None] + list(range(n)) for en in [None] + list(range(1, n + 3)) for re in (None, 1, 2, 3)
                if (en or n) > (st or 0)]
        for i, (st, en, re) in enumerate(opts):
            a, fps = aois[i % 2], (None, 2, 12.5)[i % 3]
            got = run(kind, st, en, re, fps, a, c['cli'])
            what = dict(kind=kind, start=st, end=en, step=re, fps=fps, area=a, records=ks)
            if len(got) != 1 or os.path.basename(got[0]['file']) != 'a.mp4' or not os.path.exists('a.mp4'):
                raise Viol('%d movies made: %s' % (len(got), [g['file'] for g in got]), **what)
            os.remove('a.mp4')
            if got[0]['fps'] != (5 if fps is None else fps):
                raise Viol('frame rate %s' % got[0]['fps'], **what)
            first, last = st or 0, n if en is None or en >= n else en
            lists = [list(range(first, last, re or 1))]
            if en is not None and en < n:
                lists.append(list(range(first, last + 1, re or 1)))
            fr = got[0]['frames']
            ok = [l for l in lists if len(l) == len(fr)]
            if not ok:
                raise Viol('%d frames for records %s' % (len(fr), lists), **what)
            for j, f in enumerate(fr):
                d = same(f, want[a][ok[0][j]], a)
                if d:
                    raise Viol('frame %d, record %d: %s' % (j, ok[0][j], d), **what)
                tr += 1
            states.append((st, en, re))
        if open('res.nc', 'rb').read() != before:
            raise Viol('animating changed the results file')
    return {'transitions': tr, 'states': states, 'traces': len(opts)}


def spaces(tier):
    big = tier == 'thorough'
    N = len(ROWS)
    kinds = ['map', 'long', '-40', '0', '20']
    seqs = [[i] for i in range(0, N, 1 if big else 3)] + [[i, (i + 3) % N, (i + 5) % N] for i in range(0, N, 1 if big else 3)] + ([[i, j] for i in range(N) for j in range(N)] if big else [])
    yield Space('movies', movies, [dict(kind=k, records=q, cli=False) for k in kinds for q in seqs], 'start x end x step (frame rates and areas alternating) on each file', cpu=600)
    yield Space('command', movies, [dict(kind=k, records=q, cli=m) for k in kinds for q in ([[2, 0, 5], [0, 4, 1]] if not big else seqs) for m in ('short', 'long')],
                'as above through the command line', cpu=600)
