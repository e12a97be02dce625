"""C34 the command line: every combination of options, existing outputs, answers and place of the config file."""
import contextlib, io, itertools, logging, os, runpy, subprocess, sys
import numpy as np
import netCDF4
import pandas as pd
from mc.run import Space, Viol
from mc.repo import core, REPO
from checks.conf import Scratch, setup, config
from checks.C20 import GEN
from checks.C19 import typed, old_file

LEVEL = 'model_checking'
ASSUMPTIONS = ['options -v and -q together are left out (the documentation does not order them)',
               'the run itself is compared with core.main called directly on the same inputs']
LEVELS = {'': logging.INFO, '-q': logging.WARNING, '--quiet': logging.WARNING, '-v': logging.DEBUG, '--verbose': logging.DEBUG}
NAMES = ('M_outputs.nc', 'M_TSoutputs.nc')


class Kept(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self, logging.DEBUG)
        self.seen = []

    def emit(self, r):
        if os.path.realpath(r.pathname).startswith(os.path.realpath(REPO) + os.sep):
            self.seen.append((r.levelname, r.levelno, r.getMessage()))


@contextlib.contextmanager
def logs():
    """Logging as in a fresh process; puts everything back."""
    root = logging.getLogger()
    keep, lev, dis = list(root.handlers), root.level, logging.root.manager.disable
    root.handlers[:] = []
    root.setLevel(logging.WARNING)
    logging.disable(logging.NOTSET)
    for n in ('matplotlib', 'PIL'):
        logging.getLogger(n).setLevel(logging.ERROR)
    try:
        yield root
    finally:
        for h in root.handlers:
            if isinstance(h, logging.FileHandler):
                h.close()
        root.handlers[:] = keep
        root.setLevel(lev)
        logging.disable(dis)


def content(f):
    """Values of a results file without its creation date."""
    if not os.path.exists(f):
        return None
    try:
        with netCDF4.Dataset(f) as nc:
            return {n: np.ma.asarray(v[...]).tolist() for n, v in nc.variables.items()}, nc.ModelName
    except OSError:
        return open(f, 'rb').read()


def equal(a, b):
    if type(a) is not type(b):
        return False
    return repr(a) == repr(b)


def setup_in(d, where, stem, kinds):
    """Model setup in place; results of an earlier run in the working directory.  Gives the argument."""
    over = dict(RUN)
    conf = {'here': '', 'sub': 'mod', 'deep': 'mod/a.b', 'abs': 'mod'}[where]
    setup(os.path.join(d, conf) if conf else d, config(**over), fname=stem + '.cnf', name='New')
    for k, n in zip(kinds, (stem + '_outputs.nc', stem + '_TSoutputs.nc')):
        old_file(k, n, 'out' if n.endswith('_outputs.nc') else 'ts')
    p = os.path.join(conf, stem + '.cnf') if conf else stem + '.cnf'
    return os.path.join(d, p) if where == 'abs' else p


# one run of eight steps with every level of messages: warnings (change limited at the smallest step), information and debugging
RUN = {**GEN, 'Time.EndTime': "'1 Sep 2000 00:12'", 'Time.MorDtMin': 30, 'Time.MorDtMax': 120, 'NumericalParameters.MaxMorChange': .0004, 'OutputOptions.OutInt': 120,
       'OutputOptions.TsOutInt': 60, 'OutputOptions.LogInt': 120}


def direct(where, stem, kinds, ow, ans):
    """What calling the model directly does: exit, messages, files, lines of answers left."""
    with Scratch() as d, logs() as root:
        root.setLevel(logging.DEBUG)
        k = Kept()
        root.addHandler(k)
        f = setup_in(d, where, stem, kinds)
        del k.seen[:]
        with typed(ans) as left:
            try:
                core.main(f, ow)
                ex = None
            except BaseException as e:
                ex = type(e).__name__
            rest = left.read()
        msgs = [(a, b, m.replace(d, '<d>')) for a, b, m in k.seen]
        return ex, msgs, {n: content(n) for n in (stem + '_outputs.nc', stem + '_TSoutputs.nc')}, rest


def command(where, stem, kinds, opts, ans):
    with Scratch() as d, logs() as root:
        root.addHandler(Kept())                 # (keeps logging from installing its own)
        f = setup_in(d, where, stem, kinds)
        files = set(os.listdir('.'))
        old, err = sys.argv, io.StringIO()
        sys.argv = ['hapuamod'] + [f if a == 'FILE' else a for a in opts]
        try:
            with typed(ans) as left, contextlib.redirect_stderr(err):
                try:
                    runpy.run_module('hapuamod', run_name='__main__', alter_sys=True)
                    ex = None
                except BaseException as e:
                    ex = type(e).__name__
                rest = left.read()
        finally:
            sys.argv = old
        for h in root.handlers:
            h.flush()
        log = open(stem + '_log.txt').read().replace(d, '<d>') if os.path.exists(stem + '_log.txt') else None
        made = set(os.listdir('.')) - files
        return ex, log, err.getvalue().replace(d, '<d>'), {n: content(n) for n in (stem + '_outputs.nc', stem + '_TSoutputs.nc')}, rest, made


def flags(c):
    where, stem = c['where'], c['stem']
    tr, states, tags = 0, [], {}
    lens = {}
    for kinds, ans in c['old']:
        for ow in (False, True):
            ex, msgs, files, rest = direct(where, stem, kinds, ow, ans)
            for m in msgs:
                tags[m[0]] = tags.get(m[0], 0) + 1
            for ow_opt in (['-o', '--Overwrite'] if ow else ['']):
                for lev_opt, lev in LEVELS.items():
                    for first in ((True, False) if c['both'] else (lev_opt.startswith('--'),)):
                        opts = [o for o in (ow_opt, lev_opt) if o]
                        opts = ['FILE'] + opts if first else opts + ['FILE']
                        got = command(where, stem, kinds, opts, ans)
                        what = dict(opts=opts, kinds=kinds, answers=ans, place=where)
                        if got[0] != ex:
                            raise Viol('command ends with %s instead of %s' % (got[0], ex), **what)
                        if not equal(got[3], files):
                            raise Viol('command leaves other results than the model called directly: %s' % [n for n in files if not equal(got[3].get(n), files[n])], **what)
                        if got[4] != rest:
                            raise Viol('command reads other answers: leaves %r instead of %r' % (got[4], rest), **what)
                        want = ['%-7s: %s' % (a, m) for a, b, m in msgs if b >= lev]
                        if got[1] is None:
                            raise Viol('no log file named after the config in the working directory: %s' % sorted(got[5]), **what)
                        if got[1].rstrip('\n').split('\n') != ('\n'.join(want)).split('\n'):
                            raise Viol('log file holds %r instead of %r' % (got[1][:600], '\n'.join(want)[:600]), **what)
                        plain = '\n'.join(m for a, b, m in msgs if b >= lev)
                        if got[2].rstrip('\n') != plain:
                            raise Viol('console shows %r instead of %r' % (got[2][:600], plain[:600]), **what)
                        if got[5] - set(files) - {stem + '_log.txt'}:
                            raise Viol('command makes other files: %s' % sorted(got[5]), **what)
                        tr += 1
                        tags['stopped' if ex else 'ran'] = tags.get('stopped' if ex else 'ran', 0) + 1
            states.append((kinds, ans, ow))
    return {'transitions': tr, 'states': states, 'traces': tr, 'tags': tags}


def wrong(c):
    """Wrong use stops without touching anything."""
    tr = 0
    for args in (['none.cnf'], [], ['M.cnf', '-x'], ['M.cnf', 'second'], ['none.cnf', '-o'], ['-q', 'none.cnf']):
        with Scratch() as d, logs() as root:
            root.addHandler(Kept())
            setup(d, config(**RUN))
            before = {}
            for n in NAMES:
                before[n] = old_file('valid', n, 'out' if n == NAMES[0] else 'ts')
            old = sys.argv
            sys.argv = ['hapuamod'] + args
            try:
                with typed(['y'] * 5), contextlib.redirect_stderr(io.StringIO()):
                    try:
                        runpy.run_module('hapuamod', run_name='__main__', alter_sys=True)
                        raise Viol('accepts %s' % args)
                    except (SystemExit, Exception) as e:
                        if isinstance(e, Viol) or isinstance(e, SystemExit) and e.code in (0, None):
                            raise Viol('accepts %s' % args)
            finally:
                sys.argv = old
            for n in NAMES:
                if open(n, 'rb').read() != before[n]:
                    raise Viol('%s changes %s' % (args, n))
            tr += 1
    return {'transitions': tr, 'states': [0], 'traces': tr}


def process(c):
    """The command in a process of its own."""
    where, stem = c['where'], 'M'
    kinds, ans, opts = c['kinds'], c['ans'], c['opts']
    ow = '-o' in opts
    ex, msgs, files, rest = direct(where, stem, kinds, ow, ans)
    lev = next((LEVELS[o] for o in opts if o in LEVELS), logging.INFO)
    with Scratch() as d:
        with logs() as root:
            root.addHandler(Kept())
            f = setup_in(d, where, stem, kinds)
        env = dict(os.environ, PYTHONPATH=REPO, MPLBACKEND='Agg', PYTHONWARNINGS='ignore')
        p = subprocess.run([sys.executable, '-m', 'hapuamod', f] + opts, input=''.join(a + '\n' for a in ans if a is not None), capture_output=True, text=True, env=env, timeout=200)
        if (p.returncode == 0) != (ex is None or (ex == 'SystemExit' and p.returncode == 0)):
            raise Viol('process returns %s where the model ends with %s: %s' % (p.returncode, ex, p.stderr[-400:]))
        got = {n: content(n) for n in files}
        if not equal(got, files):
            raise Viol('process leaves other results')
        log = open(stem + '_log.txt').read().replace(d, '<d>').rstrip('\n').split('\n')
        want = ('\n'.join('%-7s: %s' % (a, m) for a, b, m in msgs if b >= lev)).split('\n')
        log = [l for l in log if l in want or not l.startswith('DEBUG')]        # other libraries may log as well
        if log != want:
            raise Viol('log file holds %r instead of %r' % (log[:12], want[:12]))
    return {'transitions': 1, 'states': [repr(c)], 'traces': 1}


def script(c):
    """The run script replaces earlier results of its configuration unasked, with everything in the log and information on the console."""
    path, asked = os.path.join(REPO, 'RunHapuaMod.py'), []
    with Scratch() as d, logs() as root, contextlib.redirect_stderr(io.StringIO()):
        root.addHandler(Kept())
        keep, core.main = core.main, lambda *a, **k: asked.append(a[0] if a else k['ModelConfigFile'])
        try:
            runpy.run_path(path, run_name='__main__')
        finally:
            core.main = keep
    if len(asked) != 1:
        raise Viol('the run script runs the model %d times' % len(asked))
    f = asked[0]
    stem = os.path.splitext(os.path.split(f)[1])[0]
    names = (stem + '_outputs.nc', stem + '_TSoutputs.nc')

    def prepare(d):
        folder, fname = os.path.split(f)
        if folder:
            os.makedirs(os.path.join(d, folder))
        setup(os.path.join(d, folder) if folder else d, config(**RUN), fname=fname, name='New')
        for k, n in zip(c['kinds'], names):
            old_file(k, n, 'out' if n == names[0] else 'ts')

    with Scratch() as d, logs() as root:
        root.setLevel(logging.DEBUG)
        k = Kept()
        root.addHandler(k)
        prepare(d)
        del k.seen[:]
        core.main(f, True)
        msgs = [(a, b, m.replace(d, '<d>')) for a, b, m in k.seen]
        files = {n: content(n) for n in names}
    with Scratch() as d:
        with logs() as root:
            root.addHandler(Kept())
            prepare(d)
        env = dict(os.environ, PYTHONPATH=REPO, MPLBACKEND='Agg', PYTHONWARNINGS='ignore')
        p = subprocess.run([sys.executable, path], stdin=subprocess.DEVNULL, capture_output=True, text=True, env=env, timeout=200)
        if p.returncode:
            raise Viol('the run script ends with %d: %s' % (p.returncode, p.stderr[-400:]))
        if not equal({n: content(n) for n in names}, files):
            raise Viol('the run script leaves other results than the model called directly')
        err = p.stderr.replace(d, '<d>')
        log = open(stem + '_log.txt').read().replace(d, '<d>').rstrip('\n').split('\n')
        want = ('\n'.join('%-7s: %s' % (a, m) for a, b, m in msgs)).split('\n')
        log = [l for l in log if l in want or not l.startswith('DEBUG')]        # other libraries may log as well
        if log != want:
            raise Viol('log file of the run script holds %r instead of %r' % (log[:12], want[:12]))
        plain = '\n'.join(m for a, b, m in msgs if b >= logging.INFO)
        if err.rstrip('\n') != plain:
            raise Viol('the run script shows %r instead of %r' % (err[:600], plain[:600]))
    return {'transitions': 1, 'states': [repr(c)], 'traces': 1}


def spaces(tier):
    big = tier == 'thorough'
    none, nc, ts, both = ('none', 'none'), ('valid', 'none'), ('none', 'valid'), ('valid', 'valid')
    alone = [[(none, ())], [(nc, ('y',)), (nc, ('n',))], [(ts, ('y',)), (ts, ('n',))], [(both, ('y', 'y')), (both, ('y', 'n'))], [(both, ('n', 'y'))], [(both, (None,))]]
    yield Space('flags', flags, [dict(where=w, stem=s, old=o, both=big) for w, s in ([('here', 'M'), ('sub', 'my.model'), ('deep', 'M'), ('abs', 'M v2')] if not big else
                                                                          itertools.product(('here', 'sub', 'deep', 'abs'), ('M', 'my.model', 'M v2', 'x_log'))) for o in alone],
                'place of the config x existing outputs x answers x every option in both spellings and places', cpu=900)
    yield Space('wrong', wrong, [dict()], 'wrong arguments')
    yield Space('process', process, [dict(where=w, kinds=k, ans=a, opts=o) for w, k, a, o in [('here', none, (), []), ('sub', both, ('y', 'y'), ['-v']), ('abs', both, (), ['-o', '-q']),
                                                                                        ('sub', nc, ('n',), [])]], 'in a process of its own', cpu=300)
    yield Space('script', script, [dict(kinds=k) for k in (none, nc, ts, both)], 'the run script over every combination of earlier results', cpu=300)
