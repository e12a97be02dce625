"""Reference model of one morphological update, written transect by transect from the documented rules.

It is the model side of the conformance checks (C11, C15, C16, C17, C31, C32): every explored transition of
the real updateMorphology is replayed on it.  Nothing here is imported from the code under test."""
import math

NAN = float('nan')


def isnan(x):
    return x != x


class R:
    """Rates of change (per second)."""
    def __init__(self, n, nr):
        self.riv = [0.] * nr
        self.Y = [[0.] * 5 for _ in range(n)]
        self.Z = [[0.] * 4 for _ in range(n)]
        self.widen = self.agg = self.move = 0.

    def biggest(self):
        return max([abs(x) for x in self.riv] + [abs(v) for row in self.Y for v in row] + [abs(v) for row in self.Z for v in row]
                   + [abs(self.widen), abs(self.agg), abs(self.move)])


def rates(s, c, LST, Bed, CST, OW, P, N):
    Dx = N['Dx']
    n = len(s.ShoreX)
    closed = bool(c.Closed)
    X, Y, Z = [float(x) for x in s.ShoreX], s.ShoreY, s.ShoreZ
    r = R(n, len(s.RiverElev) - 1)
    chan = [not isnan(Y[i][1]) for i in range(n)]
    SF = [P['ClosureDepth'] + Z[i][0] for i in range(n)]
    CW = [Y[i][0] - (Y[i][1] if chan[i] else Y[i][3]) for i in range(n)]
    BB = [Z[i][0] - (Z[i][1] if chan[i] else Z[i][3]) for i in range(n)]
    dirn = 0
    E0, E1 = float(s.OutletEndX[0]), float(s.OutletEndX[1])
    ew, ee = float(s.OutletEndWidth), float(s.OutletEndElev)
    if not closed:
        dirn = 1 if E0 < E1 else -1 if E0 > E1 else 0
    lag, out = [int(i) for i in c.OnlineLagoon], [int(i) for i in c.OutletChanIx]
    # river: exner balance of every section that can change
    nsec = len(c.z)
    li = oi = 0
    for k in range(1, nsec if closed else nsec - 1):
        dv = Bed[k - 1] - (Bed[k] if k < len(Bed) else 0.)
        wide = c.B[k] / c.h[k] > P['WidthDepthRatio']
        f = int(c.Flag[k])
        ero = max(-dv, 0.)
        dep = max(dv, 0.)
        bed, bank = (dep - ero, 0.) if (wide or f == 0) else (dep, ero)
        if f == 0:
            r.riv[k - 1] = bed / (P['RiverWidth'] * Dx)
        elif f == 1:
            i = lag[li]
            li += 1
            r.Z[i][3] += bed / ((Y[i][3] - Y[i][4]) * Dx)
            top = Z[i][2] if chan[i] else Z[i][0]
            r.Y[i][3] += bank / 2 / ((top - Z[i][3]) * Dx)
            r.Y[i][4] -= bank / 2 / ((P['BackshoreElev'] - Z[i][3]) * Dx)
        elif f == 2:
            i = out[oi]
            oi += 1
            r.Z[i][1] += bed / ((Y[i][1] - Y[i][2]) * Dx)
            r.Y[i][1] += bank / 2 / ((Z[i][0] - Z[i][1]) * Dx)
            r.Y[i][2] -= bank / 2 / ((Z[i][2] - Z[i][1]) * Dx)
        elif f == 3:
            r.agg = bed / (ew * Dx)
            r.widen = bank / ((P['BeachTopElev'] - ee) * P['SpitWidth'])
            r.move = dirn * r.widen / 2 * P['OutletBankEroFac']
    if not closed:
        sp = P['OutletSedSpreadDist']
        for i in range(n):
            w = max(1 - abs(X[i] - E1) / sp, 0.)
            r.Y[i][0] += Dx * Bed[-1] / sp * w / (SF[i] * Dx)
    # longshore transport
    for i in range(1, n - 1):
        r.Y[i][0] += (LST[i - 1] - LST[i]) / (SF[i] * Dx)
    if not closed:
        right = min(i for i in range(n) if X[i] > E1)
        q = LST[right - 1]
        narrow = abs(q) / ((P['BeachTopElev'] - ee) * P['SpitWidth'])
        if q > 0:                                  # does not reach the far (right) shore
            r.Y[right][0] -= q / (SF[right] * Dx)
            r.move += narrow / 2
        else:
            r.Y[right - 1][0] += q / (SF[right - 1] * Dx)
            r.move -= narrow / 2
        r.widen -= narrow
    # overtopping
    for i in range(n):
        over = float(OW[i]) * CST[i]
        r.Z[i][0] += (CST[i] - over) / CW[i]
        r.Y[i][1 if chan[i] else 3] -= over / BB[i]
        if 0 < i < n - 1:
            r.Y[i][0] -= CST[i] / SF[i]
    for i in (0, n - 1):
        r.Y[i][0] = -P['ShorelineErosionRate'] / (365.25 * 86400)
    return r


def timestep(big, dt, T, N):
    """Adaptive timestep (seconds)."""
    mn, mx, lim = T['MorDtMin'].total_seconds(), T['MorDtMax'].total_seconds(), N['MaxMorChange']
    while dt > mn and big * dt > lim:
        dt = max(dt / 2, mn)
    while dt < mx and big * dt < lim / 2:
        dt = min(dt * 2, mx)
    return dt


def outlet_path(X, E0, E1):
    idx = [i for i in range(len(X)) if min(E0, E1) <= X[i] <= max(E0, E1)]
    return idx if E0 < E1 else idx[::-1]


def advance(s, c, LST, Bed, CST, OW, dt, P, T, N, stop=None):
    """Advance s in place.  Returns (dt, breach, events)."""
    ev = []
    n = len(s.ShoreX)
    Dx = N['Dx']
    closed = bool(c.Closed)
    X = [float(x) for x in s.ShoreX]
    x0 = X.index(0.0)
    Y, Z = s.ShoreY, s.ShoreZ
    chan = [not isnan(Y[i][1]) for i in range(n)]
    lagopen0 = [Y[i][3] - Y[i][4] > P['MinOutletWidth'] for i in range(n)]
    out = [int(i) for i in c.OutletChanIx]
    WL = [float(s.LagoonWL[i]) if Y[i][3] > Y[i][4] else -9999.9 for i in range(n)]
    if not closed:
        for i in out:
            WL[i] = float(s.OutletDep[i]) + Z[i][1]
    SF = [P['ClosureDepth'] + Z[i][0] for i in range(n)]
    CW = [Y[i][0] - (Y[i][1] if chan[i] else Y[i][3]) for i in range(n)]
    BB = [Z[i][0] - (Z[i][1] if chan[i] else Z[i][3]) for i in range(n)]
    r = rates(s, c, LST, Bed, CST, OW, P, N)
    big = r.biggest()
    dt = timestep(big, dt, T, N)
    cap = N['MaxMorChange'] / dt if big * dt > N['MaxMorChange'] else math.inf
    if cap < math.inf:
        ev.append('capped')
    lim = lambda v: min(max(v, -cap), cap)
    for k in range(len(r.riv)):
        s.RiverElev[k + 1] += lim(r.riv[k]) * dt
    for i in range(n):
        for j in range(5):
            Y[i][j] += lim(r.Y[i][j]) * dt
        for j in range(4):
            Z[i][j] += lim(r.Z[i][j]) * dt
    E = [float(s.OutletEndX[0]), float(s.OutletEndX[1])]
    ew, ee = float(s.OutletEndWidth), float(s.OutletEndElev)
    if not closed:
        ew += lim(r.widen) * dt
        ee += lim(r.agg) * dt
        E[1] += lim(r.move) * dt

    def finish(breach):
        s.OutletEndX[0], s.OutletEndX[1] = E
        s.OutletEndWidth.flat[0], s.OutletEndElev.flat[0] = ew, ee
        return dt, breach, ev
    if stop == 'rates':
        return finish(False)
    # the outlet end stays inside the domain
    if E[1] < X[1] or E[1] > X[-2]:
        ev.append('domain limit')
        E[1] = min(max(E[1], X[1]), X[-2])
    # sea against cliff
    for i in range(n):
        if Y[i][0] <= Y[i][4]:
            ev.append('cliff retreat')
            gap = Y[i][4] - Y[i][0] + 0.001
            # retreat of the cliff feeds the shoreface: gap shared so that the volumes match
            back = gap / (1 + (P['BackshoreElev'] - Z[i][0]) / SF[i])
            Y[i][4] -= back
            Y[i][3] = Y[i][4]
            Y[i][0] += gap - back
    # overwash that more than fills a channel
    for i in range(n):
        if chan[i] and Y[i][1] < Y[i][2]:
            w = Y[i][2] - Y[i][1]
            vol = w * BB[i]
            front = Z[i][2] - Z[i][0] >= 0
            room = abs(Z[i][2] - Z[i][0]) * (CW[i] if front else Y[i][2] - Y[i][3])
            Y[i][1] += w
            if vol > room:
                ev.append('overwash levels barrier')
                Z[i][0] = max(Z[i][0], Z[i][2]) + (vol - room) / (Y[i][0] - Y[i][3])
                Y[i][1] = Y[i][2] = Z[i][1] = Z[i][2] = NAN
                chan[i] = False
            elif front:
                ev.append('overwash onto front crest')
                Z[i][0] += vol / CW[i]
            else:
                ev.append('overwash onto inner crest')
                Z[i][2] += vol / (Y[i][2] - Y[i][3])
    # overwash that more than fills the lagoon goes onto the crest
    for i in range(n):
        if isnan(Y[i][1]) and Y[i][3] < Y[i][4]:
            ev.append('lagoon filled by overwash')
            vol = (Y[i][4] - Y[i][3]) * BB[i]
            Y[i][3] = Y[i][4]
            Z[i][0] += vol / (Y[i][0] - Y[i][3])
    # the outlet has grown across transects
    if not closed:
        step = 1 if E[0] < E[1] else -1
        i = out[-1] + step
        while 0 <= i < n and (E[1] - X[i]) * step >= 0:
            ev.append('outlet extends')
            Y[i][1] = Y[i][0] - P['SpitWidth']
            Y[i][2] = Y[i][1] - ew
            Z[i][1] = ee
            Z[i][2] = Z[i][0]
            Z[i][0] = P['BeachTopElev']
            i += step
        if 'outlet extends' in ev:
            out = outlet_path(X, *E)
    # the first outlet transect cannot be cut off by the sea: the channel gives way
    # (nor can any that becomes the first one because the lagoon eats those before it)
    for k, u in enumerate(out if not closed else ()):
        first = k == 0 or Y[out[k - 1]][2] <= Y[out[k - 1]][3] and not any(Y[i][2] <= Y[i][3] for i in out[k:-1])
        if first and Y[u][1] >= Y[u][0]:
            ev.append('channel pushed landward')
            d = 0.001 + Y[u][1] - Y[u][0]
            Y[u][1] -= d
            Y[u][2] -= d * (Z[u][0] - Z[u][1]) / (Z[u][2] - Z[u][1])
    # lagoon eats the upstream part of the outlet
    if len(out) > 1:
        hit = [i for i in out[:-1] if Y[i][2] <= Y[i][3]]
        if hit:
            ev.append('lagoon end truncated')
            last = hit[-1]
            k = out.index(last)
            E[0] = X[out[k + 1]]
            out = outlet_path(X, *E)
            if Y[last][2] <= Y[last][4]:
                ev.append('lagoon extended')
                lagoon = [i for i in range(n) if Y[i][3] > Y[i][4]]
                ext = range(max(lagoon) + 1, last + 1) if X[last] > 0 else range(last, min(lagoon))
                for i in ext:
                    Y[i][3], Z[i][3] = Y[i][1], Z[i][1]
                    Y[i][1] = Y[i][2] = Z[i][1] = Z[i][2] = NAN
                    chan[i] = False
    # sea eats the downstream part
    if len(out) > 1:
        if any(Y[i][1] >= Y[i][0] for i in out[1:]):
            ev.append('sea end truncated')
            first = [i for i in out if Y[i][1] >= Y[i][0]][0]
            E[1] = X[first] + (-Dx / 2 if E[0] < E[1] else Dx / 2)
            out = outlet_path(X, *E)
    # the last outlet transect cannot be cut off by the lagoon
    if not closed:
        d = out[-1]
        if Y[d][3] >= Y[d][2]:
            ev.append('lagoon edge pushed back')
            Y[d][3] = Y[d][2] - 0.0001
            if Y[d][3] < Y[d][4]:
                ev.append('outlet pushed into cliff')
                gap = Y[d][4] - Y[d][3]
                back = gap / (1 + (P['BackshoreElev'] - Z[d][2]) / (Z[d][2] - Z[d][1]))
                back = max(back, gap - (Y[d][1] - Y[d][2]))
                Y[d][4] -= back
                Y[d][2] += gap - back
                Y[d][3] += gap - back
    # disconnected channel meets the lagoon
    for i in range(n):
        if not isnan(Y[i][1]) and not Y[i][2] > Y[i][3]:
            ev.append('channel merges into lagoon')
            vol = (Y[i][1] - Y[i][2]) * Z[i][1] + (Y[i][2] - Y[i][3]) * Z[i][2] + (Y[i][3] - Y[i][4]) * Z[i][3]
            Z[i][3] = vol / (Y[i][1] - Y[i][4])
            Y[i][3] = Y[i][1]
            Y[i][1] = Y[i][2] = Z[i][1] = Z[i][2] = NAN
            chan[i] = False
    # which transects have a channel connected to the river
    wide = [chan[i] and Y[i][1] - Y[i][2] >= P['MinOutletWidth'] for i in range(n)]
    run = None
    if not closed:
        run = [min(out), max(out)]
    elif not isnan(E[0]):
        u = min(range(n), key=lambda i: abs(X[i] - E[0]))
        if wide[u] and all(lagopen0[i] for i in range(min(u, x0), max(u, x0) + 1)):
            run = [u, u]
        else:
            ev.append('relic disconnected')
            E[0] = NAN
    if run:
        while wide[run[0] - 1]:
            WL[run[0] - 1] = WL[run[0]]
            run[0] -= 1
        while wide[run[1] + 1]:
            WL[run[1] + 1] = WL[run[1]]
            run[1] += 1
    conn = [run is not None and run[0] <= i <= run[1] for i in range(n)]
    breach, where = False, None
    # channel meets the sea
    hit = [i for i in range(n) if not isnan(Y[i][1]) and not Y[i][0] > Y[i][1]]
    if hit:
        cand = [i for i in hit if conn[i]] if closed else []
        if cand:
            where = min(cand, key=lambda i: abs(X[i] - E[0]))
            breach = True
            ev.append('sea reopens relic channel')
        for i in hit:
            if i == where:
                continue
            ev.append('channel filled from shoreface')
            # the channel is filled, and the outer barrier eroded past its bank had another crest than what is left
            Y[i][0] -= ((Y[i][1] - Y[i][2]) * (Z[i][2] - Z[i][1]) + (Y[i][1] - Y[i][0]) * (Z[i][0] - Z[i][2])) / (Z[i][2] + P['ClosureDepth'])
            Y[i][1] = Y[i][2] = Z[i][1] = NAN
            Z[i][0], Z[i][2] = Z[i][2], NAN
            chan[i] = conn[i] = False
    # barrier eroded through
    gone = [i for i in range(n) if Y[i][3] >= Y[i][0] and Y[i][3] > Y[i][4]]
    if gone:
        reach = lambda i: all(lagopen0[j] for j in (range(x0 + 1, i + 1) if i > x0 else range(i, x0)))
        cand = [i for i in gone if reach(i)]
        if not breach and cand and (closed or min(abs(X[i]) for i in cand) < abs(E[0])):
            breach = True
            where = min(cand, key=lambda i: abs(X[i]))
            ev.append('erosion breach')
        for i in gone:
            if i == where:
                continue
            ev.append('barrier restored')
            gap = 0.001 + Y[i][3] - Y[i][0]
            # rolls landward, rebuilt from the shoreface
            back = gap * (Z[i][0] - Z[i][3]) / (Z[i][3] + P['ClosureDepth'])
            Y[i][0] -= back
            Y[i][3] -= gap + back
            over = Y[i][4] - Y[i][3]
            if over > 0:                             # up against the cliff, which retreats for as much sediment
                ret = over * (Z[i][3] + P['ClosureDepth']) / (P['BackshoreElev'] + P['ClosureDepth'])
                Y[i][4] -= ret
                Y[i][3] = Y[i][4]
                Y[i][0] += over - ret
                ev.append('cliff retreat')
    # water over the crest
    if not breach:
        def crest(i):
            if conn[i]:
                return Z[i][0]
            return max(Z[i][0], Z[i][2]) if chan[i] else Z[i][0]
        spill = [i for i in range(n) if crest(i) < WL[i]]
        if spill:
            lagopen = [Y[i][3] - Y[i][4] > P['MinOutletWidth'] for i in range(n)]
            reach = lambda i: all(lagopen[j] for j in (range(x0 + 1, i + 1) if i > x0 else range(i, x0)))
            cand = [i for i in spill if conn[i] or reach(i)]
            if not closed:
                cand = [i for i in cand if (abs(X[i] - E[0]) < abs(E[1] - E[0]) if conn[i]
                                            else abs(X[i]) < min(abs(E[0]), abs(E[1])))]
            if cand:
                breach = True
                deep = max(WL[i] - crest(i) for i in cand)
                where = [i for i in cand if WL[i] - crest(i) == deep][0]
                ev.append('spill breach')
            else:
                ev.append('spill without breach')
    if breach:
        i = where
        ew = max(ew, 2 * P['MinOutletWidth'])
        if conn[i] and chan[i]:
            ev.append('breach on channel')
            E[1] = X[i]
            if Y[i][1] >= Y[i][0]:
                d = 0.001 + Y[i][1] - Y[i][0]
                Y[i][1] -= d
                Y[i][2] -= d * (Z[i][0] - Z[i][1]) / (Z[i][2] - Z[i][1])
                Y[i][3] = min(Y[i][3], Y[i][2] - 0.001)
                Y[i][4] = min(Y[i][4], Y[i][3])
        else:
            ev.append('new outlet')
            E = [X[i], X[i]]
            Z[i][2] = Z[i][0]
            Y[i][1] = min(Y[i][0] - P['SpitWidth'], (Y[i][0] + Y[i][3]) / 2 + ew / 2)
            Y[i][2] = Y[i][1] - ew
            ee = min(ee, P['MaxOutletElev'])
            Z[i][1] = (ee + Z[i][3]) / 2
            if Y[i][3] >= Y[i][2]:
                Y[i][3] = Y[i][2] - 0.001
            if Y[i][4] >= Y[i][2]:
                Y[i][4] = Y[i][2] - 0.001
    if Y[x0][3] - Y[x0][4] < P['MinOutletWidth']:
        ev.append('lagoon kept open at river')
        Y[x0][4] = Y[x0][3] - P['MinOutletWidth'] - 0.001
    return finish(breach)
