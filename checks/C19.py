"""C19 every combination of existing files, overwrite option and answers, for single files and whole runs."""
import io, itertools, os, sys, builtins, contextlib
import numpy as np
import pandas as pd
import netCDF4
from mc.run import Space, Viol
from mc.model import phys
from mc.repo import out, core
from checks.conf import Scratch, setup, config

LEVEL = 'model_checking'
ASSUMPTIONS = ['answers are typed on standard input; an end of file there counts as no consent']
YES = ['Y', 'y', 'Yes', 'yes', 'YES']
NO = ['n', 'N', 'no', '', ' ', 'yep', 'y n', '0', None]
START = pd.Timestamp('2000-09-01')


@contextlib.contextmanager
def typed(answers):
    """Standard input with the given lines (None: closed); yields the list of lines left."""
    text = ''.join(a + '\n' for a in answers if a is not None)
    old, old_out = sys.stdin, sys.stdout
    sys.stdin, sys.stdout = io.StringIO(text), io.StringIO()
    try:
        yield sys.stdin
    finally:
        sys.stdin, sys.stdout = old, old_out


def old_file(kind, f, which):
    if kind == 'none':
        return None
    if kind == 'junk':
        open(f, 'wb').write(b'precious \x00\xff bytes')
    elif kind == 'empty':
        open(f, 'wb').close()
    else:
        if which == 'out':
            out.newOutFile(f, 'Old run', START, np.arange(7) * 10., 10., np.zeros(2), [1., 2.], .5, phys(), True)
        else:
            out.newTsOutFile(f, 'Old run', START, True)
            for k in range(3):
                out.writeTsOut(f, START + pd.Timedelta(hours=k), 1., 2., 3., 4., 5., 6., 7., np.zeros(2), False, pd.Timedelta(seconds=30))
        with netCDF4.Dataset(f, 'a') as nc:
            nc.Leftover = 'old'
            if which == 'out':
                nc.variables['time'][:] = [1., 2.]
            if kind == 'other':
                nc.createDimension('extra', 3)
                nc.createVariable('extra', 'f8', ('extra',))
    return open(f, 'rb').read()


def fresh(f, name, which):
    with netCDF4.Dataset(f) as nc:
        if nc.ModelName != name or 'Leftover' in nc.ncattrs() or 'extra' in nc.dimensions or nc.dimensions['time'].size != 0:
            raise Viol('%s keeps content of the replaced file: %s' % (f, nc.ncattrs()))
        if which == 'out' and nc.dimensions['transect_x'].size != 4:
            raise Viol('wrong number of transects in the new file')


def create(which, f, name, ow):
    if which == 'out':
        a = (f, name, START, np.arange(4) * 20., 20., np.zeros(3), [0., 0.], 0., phys())
        return out.newOutFile(*a) if ow is None else out.newOutFile(*(a + (ow,)))
    return out.newTsOutFile(f, name, START) if ow is None else out.newTsOutFile(f, name, START, ow)


def single(c):
    tr, tags, states = 0, {}, []
    with Scratch():
        for kind in ('none', 'valid', 'other', 'junk', 'empty'):
            for ow in (None, False, True):
                for ans in YES + NO:
                    f = 'res.nc'
                    if os.path.exists(f):
                        os.remove(f)
                    before = old_file(kind, f, c['which'])
                    allowed = before is None or bool(ow) or ans in YES
                    others = set(os.listdir('.')) - {f}
                    err = None
                    with typed([ans] * 5):
                        try:
                            create(c['which'], f, 'New run', ow)
                        except (Exception, SystemExit, KeyboardInterrupt) as e:
                            err = e
                    tr += 1
                    what = '%s file, overwrite %s, answer %r' % (kind, ow, ans)
                    tags['replaced' if err is None else 'refused'] = tags.get('replaced' if err is None else 'refused', 0) + 1
                    if allowed:
                        if err is not None:
                            raise Viol('refused (%r) although allowed: %s' % (err, what))
                        fresh(f, 'New run', c['which'])
                    else:
                        if err is None:
                            raise Viol('replaced without consent: ' + what)
                        if not os.path.exists(f) or open(f, 'rb').read() != before:
                            raise Viol('existing file changed although the run was refused: ' + what)
                    if set(os.listdir('.')) - {f} != others:
                        raise Viol('left other files behind: %s' % os.listdir('.'))
                    states.append((kind, ow, ans))
    return {'transitions': tr, 'states': states, 'tags': tags}


def whole(c):
    """A whole run onto existing results: only consented files change."""
    tr, tags, states = 0, {}, []
    cfg = config(**{'Time.EndTime': "'1 Sep 2000 00:02'", 'OutputOptions.OutInt': 60, 'OutputOptions.TsOutInt': 60, 'Time.MorDtMax': 30})
    if c['named']:
        cfg['OutputOptions'].update(OutFile="'a.nc'", TsOutFile="'b.nc'")
    names = ('a.nc', 'b.nc') if c['named'] else ('M_outputs.nc', 'M_TSoutputs.nc')
    with Scratch() as d:
        m = setup(d, cfg)
        for k1, k2 in itertools.product(('none', 'valid', 'junk'), repeat=2):
            for ow in (None, False, True):
                for a1, a2 in itertools.product(('y', 'n', ''), repeat=2):
                    for f in names:
                        if os.path.exists(f):
                            os.remove(f)
                    b1, b2 = old_file(k1, names[0], 'out'), old_file(k2, names[1], 'ts')
                    asked = [a for a, b in ((a1, b1), (a2, b2)) if b is not None and not ow]
                    if (b1 is None or ow) and a1 != 'y' or (b2 is None or ow) and a2 != 'y':
                        continue                    # answers that are never asked for
                    ok1, ok2 = b1 is None or bool(ow) or a1 == 'y', b2 is None or bool(ow) or a2 == 'y'
                    err = None
                    with typed(asked):
                        try:
                            core.main(m) if ow is None else core.main(m, ow)
                        except (Exception, SystemExit) as e:
                            err = e
                    tr += 1
                    what = 'files %s %s, overwrite %s, answers %s %s' % (k1, k2, ow, a1, a2)
                    tags['run' if err is None else 'refused'] = tags.get('run' if err is None else 'refused', 0) + 1
                    if (err is None) != (ok1 and ok2):
                        raise Viol('%s: %s' % ('stops with %r although allowed' % err if err else 'runs without consent', what))
                    for f, b, ok in ((names[0], b1, ok1), (names[1], b2, ok2)):
                        if b is not None and not ok and (not os.path.exists(f) or open(f, 'rb').read() != b):
                            raise Viol('%s changed without consent: %s' % (f, what))
                        if err is None:
                            with netCDF4.Dataset(f) as nc:
                                if nc.ModelName != 'Test model' or 'Leftover' in nc.ncattrs() or nc.dimensions['time'].size != 3:
                                    raise Viol('%s keeps content of the replaced file or lacks records: %s' % (f, what))
                    states.append((k1, k2, ow, a1, a2))
    return {'transitions': tr, 'states': states, 'tags': tags}


def spaces(tier):
    yield Space('one file', single, [dict(which=w) for w in ('out', 'ts')], 'existing content x overwrite option x answer', cpu=600)
    yield Space('whole run', whole, [dict(named=n) for n in (False, True)], 'existing content of both files x overwrite option x answers', cpu=900)
