"""Runs one property check: enumerates all its spaces exhaustively, writes evidence, reports violations.

    python -m mc.run C01 [--tier quick|thorough] [--replay FILE]
"""
import argparse, hashlib, importlib, json, multiprocessing as mp, os, resource, signal, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STOP_AFTER = 12          # violations after which a failing exploration stops
CASE_CPU = 60            # user CPU seconds allowed to one case before it counts as non-terminating


class Viol(Exception):
    """A property violation found in a case."""
    def __init__(self, msg, **data):
        Exception.__init__(self, msg)
        self.msg, self.data = msg, data


class Timeout(Exception):
    pass


class Space:
    """A finite set of cases and the function deciding one of them on the real code.

    fn(case) returns a dict with optional counts (transitions, states: iterable of hashables or
    int, traces, skipped: reason) and raises Viol if the property fails.  Any other exception
    from the code under test is a violation too."""
    def __init__(self, name, fn, cases, note='', cpu=CASE_CPU, min_active=1, chunk=None):
        self.name, self.fn, self.cases, self.note = name, fn, list(cases), note
        self.cpu, self.min_active, self.chunk = cpu, min_active, chunk


_SPACES = None


def jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, np.generic):
        return jsonable(x.item())
    if isinstance(x, (str, int, bool)) or x is None:
        return x
    if isinstance(x, float):
        return x if x == x and abs(x) != float('inf') else repr(x)
    return repr(x)


def _alarm(sig, frm):
    raise Timeout()


def _one(job):
    si, ci = job
    sp = _SPACES[si]
    case = sp.cases[ci]
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, sp.cpu, 5)
    r = {'space': si, 'case': ci}
    try:
        res = sp.fn(case) or {}
        st = res.get('states', [])
        r['states'] = st if isinstance(st, int) else [hashlib.blake2b(repr(s).encode(), digest_size=8).hexdigest()
                                                      for s in set(st)]
        for k in ('transitions', 'traces'):
            r[k] = int(res.get(k, 1 if k == 'transitions' else 0))
        if res.get('skipped'):
            r['skipped'] = res['skipped']
        r['tags'] = {k: int(v) for k, v in res.get('tags', {}).items()}
        r['viols'] = [(m, jsonable(d)) for (m, d) in res.get('viols', [])]
    except Viol as v:
        r['viols'] = [(v.msg, jsonable(v.data))]
    except Timeout:
        r['viols'] = [('does not terminate (%.0f s of CPU)' % sp.cpu, {})]
    except MemoryError:
        r['viols'] = [('out of memory', {})]
    except SystemExit as e:
        r['viols'] = [('exits the process: %r' % e, {})]
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        r['viols'] = [('fails with %s: %s' % (type(e).__name__, str(e)[:200]),
                       {'trace': ['%s:%d %s' % (os.path.basename(f.filename), f.lineno, f.name) for f in tb[-6:]]})]
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    return r


def _init():
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))


def known_findings(pid):
    f = os.path.join(VERIF, 'known_findings.json')
    return [k for k in json.load(open(f))['findings'] if k['property'] == pid]


def main(argv=None):
    global _SPACES
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default='quick', choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('MC_JOBS', '8')))
    ap.add_argument('--no-evidence', action='store_true')
    ap.add_argument('--verbose', action='store_true')
    if (argv or sys.argv[1:]) == ['--selftest']:
        import mc.model
        print('framework ready, code under test in', os.path.dirname(mc.model.core.__file__))
        return 0
    a = ap.parse_args(argv)
    t0 = time.time()
    pid = a.property
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    sys.setrecursionlimit(10000)
    violations, spaces, imp_err = [], [], None
    try:
        mod = importlib.import_module('checks.' + pid)
        # all spaces are enumerated completely and do not depend on the seed
        spaces = list(mod.spaces(a.tier))
        level, assumptions = mod.LEVEL, mod.ASSUMPTIONS
    except Exception as e:     # code under test that cannot even be loaded
        if not _from_repo(e):
            raise
        imp_err = e
    if imp_err is not None:
        traceback.print_exception(imp_err)
        violations.append({'space': 'setup', 'case': None, 'what': 'code under test fails while setting up: %r' % imp_err,
                           'data': {}})
        level, assumptions = 'exploration', ['setup failed']
    _SPACES = spaces
    if a.replay:
        rp = json.load(open(a.replay))
        jobs = [(si, ci) for si, s in enumerate(spaces) if s.name == rp['space']
                for ci, c in enumerate(s.cases) if json.loads(json.dumps(jsonable(c))) == rp['case']]
        if not jobs and imp_err is None:
            print('replay: case not in the space of this tier'); return 2
    else:
        jobs = [(si, ci) for si, s in enumerate(spaces) for ci in range(len(s.cases))]
    stats = [dict(name=s.name, cases=len(s.cases), transitions=0, states=set(), nstates=0, traces=0, skipped={}, tags={},
                  note=s.note) for s in spaces]
    done, timeouts, wall_space = 0, 0, {}
    stopped = False
    if jobs:
        ctx = mp.get_context('fork')
        nproc = max(1, min(a.jobs, len(jobs)))
        with ctx.Pool(nproc, initializer=_init) as pool:
            for r in pool.imap(_one, jobs, chunksize=max(1, min(16, len(jobs) // (nproc * 8)))):
                done += 1
                s = stats[r['space']]
                sp = spaces[r['space']]
                s['transitions'] += r.get('transitions', 0)
                st = r.get('states', [])
                if isinstance(st, int):
                    s['nstates'] += st
                else:
                    s['states'].update(st)
                s['traces'] += r.get('traces', 0)
                if r.get('skipped'):
                    s['skipped'][r['skipped']] = s['skipped'].get(r['skipped'], 0) + 1
                for k, n in r.get('tags', {}).items():
                    s['tags'][k] = s['tags'].get(k, 0) + n
                for (msg, data) in r.get('viols', []):
                    violations.append({'space': sp.name, 'case': jsonable(sp.cases[r['case']]), 'what': msg, 'data': data})
                    if msg.startswith('does not terminate'):
                        timeouts += 1
                if len(violations) >= STOP_AFTER * 4 or timeouts >= 3:
                    stopped = True
                    pool.terminate()
                    break
    known = known_findings(pid)
    new, seen = [], {}
    for v in violations:
        hit = None
        for k in known:
            if k['space'] == v['space'] and k['case'] == v['case'] and k['match'] in v['what']:
                hit = k
                break
        if hit is None:
            new.append(v)
        else:
            seen.setdefault(hit['what'], 0)
            seen[hit['what']] += 1
    for w in seen:
        print('KNOWN-FINDING: property=%s %s' % (pid, w))
    rdir = os.path.join(VERIF, 'evidence', 'replay')
    for v in new[:STOP_AFTER]:
        os.makedirs(rdir, exist_ok=True)
        name = '%s-%s.json' % (pid, hashlib.sha1(json.dumps([v['space'], v['case'], v['what']]).encode()).hexdigest()[:10])
        path = os.path.join(rdir, name)
        json.dump(dict(property=pid, tier=a.tier, **v, replay_with='bash /verif/check.sh %s --tier %s --replay %s' % (pid, a.tier, path)),
                  open(path, 'w'), indent=1)
        print('VIOLATION property=%s replay=%s' % (pid, path))
        print('  [%s] case %s: %s' % (v['space'], json.dumps(v['case'])[:300], v['what'][:400]))
        if a.verbose:
            print('   ', json.dumps(v['data'])[:3000])
    if not a.replay and not stopped and not new:
        for s, sp in zip(stats, spaces):
            active = s['cases'] - sum(s['skipped'].values())
            if active < sp.min_active:
                print('INTERNAL: space %s of %s explored only %d active cases (needs %d); skipped: %s'
                      % (s['name'], pid, active, sp.min_active, s['skipped']))
                new.append({'space': sp.name})
                print('VIOLATION property=%s replay=%s' % (pid, 'none'))
    nst = sum(len(s['states']) + s['nstates'] for s in stats)
    ntr = sum(s['transitions'] for s in stats)
    ntc = sum(s['traces'] for s in stats)
    ev = {'property': pid, 'tier': a.tier, 'seed': seed, 'level': level,
          'coverage': {'states': nst, 'transitions': ntr, 'traces_validated_against_impl': ntc,
                       'cases': done, 'exhaustive': bool(not stopped and done == len(jobs) and not a.replay),
                       'spaces': [dict(name=s['name'], cases=s['cases'], transitions=s['transitions'],
                                       states=len(s['states']) + s['nstates'], traces=s['traces'],
                                       skipped=s['skipped'], tags=s['tags'], note=s['note']) for s in stats]},
          'assumptions': assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    if not a.replay and not a.no_evidence:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s %s: %d cases, %d transitions, %d states, %d traces, %.1f s, %d violation(s)%s'
          % (pid, a.tier, done, ntr, nst, ntc, time.time() - t0, len(new), ' (stopped early)' if stopped else ''))
    if a.verbose:
        for s in stats:
            print('  ', s['name'], s['cases'], 'cases', s['transitions'], 'tr', len(s['states']) + s['nstates'], 'st',
                  s['skipped'] or '', s['tags'] or '')
    return 1 if new else 0


def _from_repo(e):
    from .repo_path import REPO
    while e is not None:
        for f in traceback.extract_tb(e.__traceback__):
            if os.path.realpath(f.filename).startswith(os.path.realpath(REPO) + os.sep):
                return True
        if isinstance(e, (ImportError, SyntaxError)) and 'hapuamod' in (str(e) + str(getattr(e, 'filename', ''))):
            return True
        e = e.__cause__ or e.__context__
    return False


if __name__ == '__main__':
    from mc import run as _self          # so that checks and driver share one module
    sys.exit(_self.main())
