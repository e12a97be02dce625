"""C35 wave records prepared from wave model output: every record of an enumerated table against linear wave theory."""
import ast, itertools, os, runpy, warnings
import numpy as np
import pandas as pd
from mc.run import Space, Viol
from mc.repo import REPO
from checks.conf import Scratch

LEVEL = 'model_checking'
ASSUMPTIONS = ['the settings at the top of the script (input file, shore normal) are edited as its user would',
               'wave angles that linear refraction cannot produce at the given depth are left out']
SCRIPT = 'preprocessing/WaveDataFromSwanOutput.py'
COLS = ['ModelTime', 'Year', 'Month', 'Day', 'Hour', 'Min', 'Hsig', 'Tm01', 'WavePeriod', 'RTpeak', 'Dir', 'Dspr', 'PkDir', 'XWindv', 'YWindv', 'Ubot', 'Urms', 'Wlen_h', 'Depth',
        'XTransp', 'YTransp', 'XWForce', 'YWForce', 'Radstr', 'Setup']


def script(infile, normal):
    """Runs the script on a table with its settings edited; returns the one csv it makes."""
    src = open(os.path.join(REPO, SCRIPT), newline=None).read()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        tree = ast.parse(src)
    tree = Settings(infile, normal).visit(tree)
    ast.fix_missing_locations(tree)
    here = os.getcwd()
    for d in ('preprocessing', 'inputs'):                   # the layout the script is run in
        os.makedirs(d, exist_ok=True)
    files = lambda: {os.path.join(d, f): os.stat(os.path.join(d, f)).st_mtime_ns for d, _, fs in os.walk(here) for f in fs}
    before = files()
    os.chdir('preprocessing')
    try:
        exec(compile(tree, SCRIPT, 'exec'), {'__name__': '__main__', '__file__': os.path.abspath(os.path.basename(SCRIPT))})
    finally:
        os.chdir(here)
    made = [f for f, t in files().items() if before.get(f) != t]
    if len(made) != 1:
        raise Viol('script makes the files %s' % sorted(made))
    got = pd.read_csv(made[0], index_col=0)
    os.remove(made[0])
    return got


class Settings(ast.NodeTransformer):
    """Edits the settings as a user would: the path of the table and the direction of the shore normal."""
    def __init__(self, infile, normal):
        self.infile, self.normal = os.path.abspath(infile), normal

    def visit_Constant(self, n):
        if isinstance(n.value, str) and n.value.lower().endswith('.txt'):
            return ast.copy_location(ast.Constant(self.infile), n)
        if type(n.value) in (int, float) and n.value == 128:
            return ast.copy_location(ast.Constant(self.normal), n)
        return n


def expected(r, normal):
    """Row of the model input from one row of the table."""
    k = 2 * np.pi / r['Wlen_h']
    kd = k * r['Depth']
    power = 1025 * 9.81 * np.hypot(r['XTransp'], r['YTransp'])
    frm = np.degrees(np.arctan2(-r['XTransp'], -r['YTransp'])) % 360      # the direction they come from
    a = np.radians(normal - r['Dir'])
    a = np.arctan2(np.sin(a), np.cos(a))
    if abs(a) >= np.pi / 2:
        return power, frm, 0.
    # deep water wave of the same frequency: phase speeds from the dispersion relation, Snell and energy flux
    om = np.sqrt(9.81 * k * np.tanh(kd))
    c, c0 = om / k, 9.81 / om
    cg = c / 2 * (1 + 2 * kd / np.sinh(2 * kd))
    cg0 = c0 / 2
    s0 = np.sin(a) * c0 / c
    if abs(s0) > .999:
        return power, frm, None
    a0 = np.arcsin(s0)
    return power, frm, r['Hsig'] * np.sqrt(cg * np.cos(a) / (cg0 * np.cos(a0)))


def table(c):
    normal, rows = c['normal'], []
    t = pd.Timestamp(c['start'])
    for L, rel, H, tr, d in itertools.product(c['lengths'], c['angles'], (0., .4, 3.25), c['transports'], c['depths']):
        w = np.radians(tr)
        m = (3.1, .05, 0., 170.)[len(rows) % 4] if len(c['depths']) % 2 else (3.1, 3.1, .05, .05, 0., 0., 170.)[len(rows) % 7]
        rows.append(dict(ModelTime=0., Year=t.year, Month=t.month, Day=t.day, Hour=t.hour, Min=t.minute, Hsig=H, Tm01=5.5, WavePeriod=round(4 + .01 * len(rows), 3), RTpeak=9.1,
                         Dir=(normal + rel) % 360, Dspr=20., PkDir=11., XWindv=1., YWindv=2., Ubot=.1, Urms=.2, Wlen_h=float(L), Depth=float(d), XTransp=np.round(m * np.sin(w), 6),
                         YTransp=np.round(m * np.cos(w), 6), XWForce=0., YWForce=0., Radstr=0., Setup=.01))
        t += pd.Timedelta(minutes=c['every'])
    tr, states, tags = 0, [], {}
    with Scratch():
        with open('swan.txt', 'w') as f:
            f.write(''.join('%% header %d\n' % i for i in range(27)))
            for r in rows:
                f.write('   ' + '  '.join(('%d' if k in ('Year', 'Month', 'Day', 'Hour', 'Min') else '%.6f') % r[k] for k in COLS) + '\n')
        got = script('swan.txt', normal)
        if list(got.columns) != ['WavePeriod', 'Wlen_h', 'WavePower', 'EDir_h', 'Hsig_Offshore'] or len(got) != len(rows):
            raise Viol('prepared table has columns %s and %d rows for %d' % (list(got.columns), len(got), len(rows)))
        for (when, g), r in zip(got.iterrows(), rows):
            t = pd.Timestamp(year=r['Year'], month=r['Month'], day=r['Day'], hour=r['Hour'], minute=r['Min'])
            if pd.to_datetime(when, dayfirst=True) != t:
                raise Viol('record of %s is dated %s' % (t, when), row=r)
            p, frm, h = expected(r, normal)
            bad = None
            if abs(g['WavePeriod'] - r['WavePeriod']) > 1e-3 or abs(g['Wlen_h'] - r['Wlen_h']) > 1e-3:
                bad = 'period or wave length changed'
            elif abs(g['WavePower'] - p) > 1e-6 * p + 1e-3:
                bad = 'wave power %g instead of %g' % (g['WavePower'], p)
            elif p and abs((g['EDir_h'] - frm + 180) % 360 - 180) > 2e-3:
                bad = 'direction %g instead of %g' % (g['EDir_h'], frm)
            elif h is not None and not abs(g['Hsig_Offshore'] - h) <= 1e-3 + 1e-5 * h:
                bad = 'offshore height %g instead of %g' % (g['Hsig_Offshore'], h)
            if bad:
                raise Viol(bad, row=r)
            tags['unphysical angle' if h is None else 'offshore' if abs((r['Dir'] - normal + 180) % 360 - 180) >= 90 else 'onshore'] = \
                tags.get('unphysical angle' if h is None else 'offshore' if abs((r['Dir'] - normal + 180) % 360 - 180) >= 90 else 'onshore', 0) + 1
            tr += 1
            states.append((r['Dir'], r['Depth'], r['Wlen_h'], r['Hsig']))
        # the loader takes the prepared table as it is
    return {'transitions': tr, 'states': states, 'traces': tr, 'tags': tags}


def spaces(tier):
    big = tier == 'thorough'
    A = [-179, -120, -91, -89, -60, -30, -10, 0, 5, 20, 45, 75, 89, 91, 150] if not big else list(range(-179, 181, 4))
    yield Space('tables', table, [dict(normal=n, start=s, every=e, depths=d, lengths=[8, 20, 35, 60, 110, 200], angles=A, transports=[-170, -90, -20, 0, 65, 90, 180])
                                  for n in ((128, 0, 350) if not big else range(0, 360, 15)) for d in ([10.], [2., 5., 30.], [30., 2., 10., 5.]) for s, e in (('1999-12-31 22:00', 60), ('2001-02-03 04:05', 20))],
                'depth x length x angle x height x transport direction, hourly and by 20 minutes')
