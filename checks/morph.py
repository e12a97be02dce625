"""States and forcings for the morphology checks.

A state is a row of transects, each of one type from a small alphabet (regular or about to meet sea, lagoon
or cliff), plus an outlet.  A forcing is a set of transport vectors, applied through the real update."""
import functools, itertools
import numpy as np
from mc.model import State, NAN, phys, nums, times, td, Chan, assemble, update
from mc import refmor

HALF = 4
DX = 20.
# type -> (gap sea/bank, channel width or None, gap channel/lagoon, lagoon width) or (barrier width, lagoon width)
TINY = 0.03
TYPES = {
    'L': (60., None, None, 40.),        # barrier and lagoon
    'B': (60., None, None, 0.),         # barrier against the cliff
    'N': (60., None, None, 0.5),        # lagoon too narrow to pass flow
    'T': (TINY, None, None, 40.),       # barrier nearly gone
    'C': (TINY, None, None, 0.),        # cliff nearly at the sea
    'O': (12., 14., 30., 40.),          # channel in barrier with lagoon behind
    'o': (12., 14., 30., 0.),           # channel in barrier, no lagoon
    'S': (TINY, 14., 30., 40.),         # channel about to meet the sea
    's': (TINY, 14., 30., 0.),
    'G': (12., 14., TINY, 40.),         # channel about to meet the lagoon
    'g': (12., 14., TINY, 0.),          # channel about to meet the cliff
    'Z': (12., 0.0, 30., 40.),          # channel closed by overwash
    'z': (12., 0.02, 30., 0.),
    'X': (TINY, 14., TINY, 40.),        # both
    'l': (60., None, None, 40.),        # crest below the lagoon level
    'c': (12., 14., 30., 40.),          # outer crest below the water, inner above
    'Y': (12., 0.02, 30., 40.),         # nearly closed, crests level
    'y': (12., 0.0, 30., 40.),          # closed, crests exactly level
    'M': (60., None, None, 1.02),       # lagoon just wide enough
    'm': (12., 14., 30., 1.02),
    'k': (12., 0.0, 30., 40.),          # closed channel with its outer crest below the water
    'E': (TINY, None, None, .5),        # barrier nearly gone in front of a narrow lagoon
    'q': (TINY, 14., 30., 0.),          # channel about to meet the sea, inner crest below the water, no lagoon
    'e': (9., None, None, 2.5),         # crest below the lagoon level, barrier and lagoon narrower than a new outlet
}
CHANNEL = 'OoSsGgZzXcYymkq'
LOWCREST = 'lcke'


def build(row, us=None, ds=None, closed=False, relic=None, wl=1.2, endw=12., endbed=-1.3, sub=0, lagslope=0.0, tiny=TINY, minw=1.0):
    """row: string of 2*HALF+1 types.  us, ds in units of DX; relic: upstream offset of a relic channel (closed)."""
    n = 2 * HALF + 1
    s = State()
    off = np.arange(-HALF, HALF + 1)
    s.ShoreX = off * DX
    s.ShoreY = np.full((n, 5), NAN)
    s.ShoreZ = np.full((n, 4), NAN)
    s.LagoonWL = np.full(n, NAN)
    for i, t in enumerate(row):
        a, w, b, lw = [tiny if v == TINY else minw + .02 if v == 1.02 else minw / 2 if v == .5 else v for v in TYPES[t]]
        y0 = 2.0 + 0.3 * np.sin(1.7 * i + sub)
        Y, Z = s.ShoreY[i], s.ShoreZ[i]
        Y[0] = y0
        Z[0] = 3.2 + .07 * i
        Z[3] = -1. - .04 * i
        if w is None:
            Y[3] = y0 - a - (.5 * i if a > 1 else 0)
        else:
            Y[1] = y0 - a - (.2 * i if a > 1 else 0)
            Y[2] = Y[1] - w - (.1 * i if w > 1 else 0)
            Y[3] = Y[2] - b
            Z[1] = -.5 - .03 * i
            Z[2] = Z[0] + (.4 if i % 2 else -.3)
        Y[4] = Y[3] - lw - (.3 * i if lw > 3 else 0)
        s.LagoonWL[i] = wl + lagslope * (i - HALF)
        if t == 'Y':
            Z[2] = Z[0] + (.002 if i % 2 else -.002)
        if t == 'y':
            Z[2] = Z[0]
        if t in 'le':
            Z[0] = wl - 0.2 - 0.01 * i
        if t == 'q':
            Z[2] = wl - .25 - 0.01 * i
        if t in 'ck':
            Z[0], Z[2] = wl - 0.3 - 0.01 * i, 3.
    if us is None:
        s.OutletEndX = np.array([NAN if relic is None else relic * DX, (0. if relic is None else relic) * DX])
    else:
        s.OutletEndX = np.array([us * DX, ds * DX], float)
    s.OutletEndWidth, s.OutletEndElev = np.asarray(float(endw)), np.asarray(float(endbed))
    s.RiverElev = np.array([.3, 0., -.4])
    s.RivDep, s.RivVel = np.array([1.4, 1.5, 1.7]), np.array([.8, .7, .6])
    s.LagoonVel = np.full(n, .3)
    s.OutletDep, s.OutletVel = np.full(n, NAN), np.full(n, NAN)
    s.Closed = closed
    s.OutletEndDep, s.OutletEndVel = np.full(2, NAN), np.full(2, NAN)
    if not closed:
        on = (off >= min(us, ds)) & (off <= max(us, ds))
        s.OutletDep[on] = wl - s.ShoreZ[on, 1] - .05
        s.OutletVel[on] = .9
        s.OutletEndDep, s.OutletEndVel = np.array([1.8, 2.4]), np.array([1., .7])
    return s


def online(us, ds):
    return [o for o in range(-HALF, HALF + 1) if min(us, ds) <= o <= max(us, ds)]


def vec(kind, n, amp, i0=0):
    i = np.arange(n)
    if kind == '0':
        return np.zeros(n)
    if kind == 'up':
        return amp * (1 + .5 * np.sin(1. + 1.3 * i))
    if kind == 'down':
        return -amp * (1 + .5 * np.sin(.4 + 1.9 * i))
    if kind == 'mix':
        return amp * np.sin(2.1 + 2.3 * i)
    if kind == 'mix2':
        return -amp * np.sin(2.1 + 2.3 * i)
    raise KeyError(kind)


def forcing(f, s, c, P, N, scale=1.):
    """Transport vectors of a named forcing.  Names combine l(ongshore), b(ed), o(vertopping), e(nd erosion)."""
    n = s.ShoreX.size
    LST, Bed, CST, OW = np.zeros(n - 1), np.zeros(c.z.size - 1), np.zeros(n), np.zeros(n, bool)
    for part in f.split('&'):
        k, v = part[0], part[1:]
        if k == 'l':
            LST = vec(v, n - 1, .004 * scale)
        elif k == 'b':
            Bed = vec(v, c.z.size - 1, .01 * scale)
        elif k == 'p':                            # one reach only, counted from the river or from the end
            Bed = np.zeros(c.z.size - 1)
            Bed[max(min(int(v[1:]), Bed.size - 1), -Bed.size)] = (.02 if v[0] == '+' else -.02) * scale
        elif k == 'q':                            # longshore transport in the segment at the outlet only
            LST = np.zeros(n - 1)
            LST[min(int(np.searchsorted(s.ShoreX, s.OutletEndX[1], side='right')), n - 1) - 1] = (.01 if v == '+' else -.01) * scale
        elif k == 'o':
            CST = np.abs(vec('up', n, .003 * scale))
            OW = {'crest': np.zeros(n, bool), 'back': np.ones(n, bool), 'alt': np.arange(n) % 2 == 0,
                  'tla': np.arange(n) % 2 == 1}[v]
        elif k == 'O':                            # the same, only where the overtopping rules allow it and without vanishing crests
            _, _, CST, OW = forcing('o' + v, s, c, P, N, scale)
            ch = ~np.isnan(s.ShoreY[:, 1])
            OW &= ch | (s.ShoreY[:, 3] > s.ShoreY[:, 4])
            width = s.ShoreY[:, 0] - np.where(ch, s.ShoreY[:, 1], s.ShoreY[:, 3])
            CST[(width < 1.) & ~OW] = 0.
    return LST, Bed, CST, OW


def run_pair(s, fname, MorDt, P, N, T, scale=1.):
    """Advance copies of s with the real update and with the reference.  Returns (real, ref, info) or a skip reason."""
    a, b = s.copy(), s.copy()
    ch = Chan(assemble(a, P, N))
    a.Closed = b.Closed = bool(ch.Closed)
    LST, Bed, CST, OW = forcing(fname, a, ch, P, N, scale)
    ins = [x.copy() for x in (LST, Bed, CST, OW, ch.z, ch.B, ch.h, ch.dx, ch.Flag)]
    dt_ref, br_ref, ev = refmor.advance(b, ch, LST, Bed, CST, OW, MorDt, P, T, N)
    dt, br = update(a, ch, LST, Bed, CST, OW, td(MorDt), P, T, N)
    changed = any(not np.array_equal(x, y, equal_nan=(x.dtype.kind == 'f')) for x, y in
                  zip(ins, (LST, Bed, CST, OW, ch.z, ch.B, ch.h, ch.dx, ch.Flag)))
    return a, b, dict(dt=dt.total_seconds(), dt_ref=dt_ref, breach=bool(br), breach_ref=bool(br_ref), events=ev, chan=ch,
                      LST=LST, Bed=Bed, CST=CST, OW=OW, changed=changed, before=s, closed=a.Closed)


OUTLETS = [None, ('relic', 1), ('relic', -2), ('relic', 0), ('relic', 2, 0), ('relic', -1, 2),
           (0, 0), (0, .5), (0, -.5), (1, 1), (-1, -1), (0, 1.5), (0, -1.95), (1, 2.5), (1, 2.98), (-1, -2.98), (-1, -2.5),
           (2, .5), (-2, -.5), (1, -.4), (-1, .4), (2, 2.9985), (-2, -2.9985), (-1, 1.5), (1, 3.), (0, .9985), (1, 1.9985), (0, -.9985), (-1, 2.5), (1, -2.5)]


def rows(outlet, special, k, closing=True):
    return _rows(outlet, tuple(special), k, closing)


@functools.lru_cache(None)
def _rows(outlet, special, k, closing):
    """All rows: base types, outlet transects regular channels, at most k of the middle five replaced."""
    if outlet is None:
        on, closed = [], True
    elif outlet[0] == 'relic':
        u = outlet[1]
        on = ([u, u + 1] if u >= 0 else [u, u - 1]) if len(outlet) == 2 else online(u, outlet[2])
        closed = True
    else:
        on, closed = online(*outlet), False
    base = ['L' if abs(o) <= 2 else 'B' for o in range(-HALF, HALF + 1)]
    for o in on:
        base[o + HALF] = 'O' if abs(o) <= 2 else 'o'
    mid = [o + HALF for o in range(-2, 3)] + [i + HALF for i in on if abs(i) > 2]
    out = []
    for m in range(k + 1):
        for pos in itertools.combinations(mid, m):
            for ts in itertools.product(special, repeat=m):
                r = list(base)
                ok = True
                for i, t in zip(pos, ts):
                    o = i - HALF
                    if r[i] == t:
                        ok = False                       # same row as with fewer replacements
                    if not closed and o in on and t not in 'OoSsGgXcmq' + ('Z' if closing else ''):
                        ok = False                       # online transects have an open channel
                    if o == 0 and TYPES[t][3] < 1:
                        ok = False                       # the lagoon at the river stays open
                    r[i] = t
                if ok:
                    out.append(''.join(r))
    return out


def make(outlet, row, **kw):
    if outlet is None:
        return build(row, closed=True, **kw)
    if outlet[0] == 'relic':
        return build(row, closed=True, relic=outlet[1], **kw)
    return build(row, us=outlet[0], ds=outlet[1], **kw)


PARS = [dict(),
        dict(WidthDepthRatio=12., ShorelineErosionRate=3., OutletBankEroFac=.3, MinOutletWidth=2., OutletSedSpreadDist=55.,
             MaxOutletElev=-1., SpitWidth=6., BeachTopElev=2.4, ClosureDepth=7., BackshoreElev=8., RiverWidth=35.),
        dict(WidthDepthRatio=1., OutletBankEroFac=1., OutletSedSpreadDist=20.)]


def transition(s, f, dt, scale, P, N, T, judge, tags, states):
    a, b, info = run_pair(s, f, dt, P, N, T, scale)
    for e in set(info['events']) or {'plain'}:
        tags[e] = tags.get(e, 0) + 1
    judge(a, b, info, P, N, T)
    states.append(a.key())


def spaces_for(judge_name, tier, forc, scales=(1., 30.), dts=(60.,), pars=(0, 1), outlets=None, special=None, k=1, deep=None):
    """Cases of a morphology check: one per outlet, forcing set, timestep, scale, parameter set."""
    cs = []
    for o in (outlets or OUTLETS):
        for par in pars:
            for dt in dts:
                for sc in scales:
                    rs = rows(o, special or TYPES, k)
                    size = 60
                    for j in range(0, len(rs), size):
                        cs.append(dict(outlet=o, k=k, special=special, lo=j, hi=min(j + size, len(rs)), forc=list(forc), dt=dt,
                                       scale=sc, par=par))
    return cs


def run_case(c, judge, T=None, N=None, **kw):
    P = phys(**PARS[c['par']])
    N, T = N or nums(), T or times()
    tags, states, tr = {}, [], 0
    for row in rows(c['outlet'], c['special'] or TYPES, c['k'])[c['lo']:c['hi']]:
        for f in c['forc']:
            s = make(c['outlet'], row, minw=P['MinOutletWidth'], **kw)
            try:
                transition(s, f, c['dt'], c['scale'], P, N, T, judge, tags, states)
            except Exception as e:
                from mc.run import Viol
                if isinstance(e, Viol):
                    e.data.update(row=row, forcing=f, start=s.dump())
                raise
            tr += 1
    return {'transitions': tr, 'states': states, 'traces': tr, 'tags': tags}
