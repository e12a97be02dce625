"""Confirms and stores a planted bug: plant(id, property, file, edits, demo, needs, breaks).

Applies the edits to a scratch copy of /repo, runs the stable tests against both, and the demo
against both; writes /verif/seeded/<id>/ only when everything is as required."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', PYTHONWARNINGS='ignore')
BASE = '3b3de33'
SH = '''#!/bin/bash
# exit 0: the property holds on this input
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONWARNINGS=ignore OPENBLAS_NUM_THREADS=1 PYTHONPATH="$PWD"
HERE=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
export MPLCONFIGDIR="$W/mpl"
mkdir "$MPLCONFIGDIR"
cd "$W" && /opt/venv/bin/python "$HERE/demo.py"
rc=$?
rm -rf "${W:?}"
exit $rc
'''


def edit(path, pairs):
    b = open(path, 'rb').read().decode('utf-8')
    crlf = '\r\n' in b
    for old, new in pairs:
        if crlf:
            old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
        if b.count(old) != 1:
            raise SystemExit('text found %d times: %r' % (b.count(old), old))
        b = b.replace(old, new)
    open(path, 'wb').write(b.encode('utf-8'))


def tests(tree):
    """Stable tests against a scratch tree."""
    with tempfile.TemporaryDirectory() as w:
        s = open('/opt/vp/test.sh').read().replace('/repo', tree)
        r = open('/opt/vp/run_script.py').read().replace('"/repo/"', repr(tree + '/')).replace('"/repo"', repr(tree))
        open(w + '/run_script.py', 'w').write(r)
        open(w + '/t.sh', 'w').write(s.replace('/opt/vp/run_script.py', w + '/run_script.py'))
        subprocess.run(['bash', w + '/t.sh', w + '/o.json'], env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        ok = set(json.load(open(w + '/o.json'))['passed'])
    return not (set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - ok)


def plant(id, prop, edits, demo, needs, breaks, check=True):
    """edits: {file: [(old, new), ...]}"""
    tree = tempfile.mkdtemp(prefix='plant')
    shutil.rmtree(tree)
    try:
        subprocess.check_call(['git', 'clone', '-q', '/repo', tree])
        for f, pairs in edits.items():
            edit(os.path.join(tree, f), pairs)
        diff = subprocess.run(['git', '-C', tree, 'diff'], stdout=subprocess.PIPE).stdout
        for f in edits:                              # the changed lines must be the original repository's
            was = [l.strip() for l in subprocess.run(['git', '-C', '/repo', 'show', BASE + ':' + f], stdout=subprocess.PIPE).stdout.decode().splitlines()]
            gone = [l[1:].strip() for l in subprocess.run(['git', '-C', tree, 'diff', '-U0', f], stdout=subprocess.PIPE).stdout.decode().splitlines() if l.startswith('-') and not l.startswith('---')]
            if gone and not any(g in was for g in gone if g):
                print('WARNING %s: %s changes only lines that are not original' % (id, f))
        d = os.path.join(HERE, 'seeded', id)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + '/demo.py', 'w').write(demo)
        open(d + '/demo.sh', 'w').write(SH)
        os.chmod(d + '/demo.sh', 0o755)
        open(d + '/patch.diff', 'wb').write(diff)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
        run = lambda cwd: subprocess.run(['bash', d + '/demo.sh'], cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=250)
        a, b = run('/repo'), run(tree)
        imp = subprocess.run([sys.executable, '-c', 'from hapuamod import core, animate'], cwd=tree, env=dict(ENV, PYTHONPATH=tree))
        t = tests(tree)
        good = a.returncode == 0 and b.returncode != 0 and t and imp.returncode == 0
        res = ''
        if good and check:
            r = subprocess.run(['bash', HERE + '/check.sh', prop, '--no-evidence'], env=dict(ENV, HAPUA_REPO=tree), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            o = [l for l in r.stdout.decode().splitlines() if l.strip()]
            res = 'check exit %d: %s' % (r.returncode, (o[0] if r.returncode else o[-1])[:200] if o else '')
        print('%s %s: demo %d/%d tests %s -> %s   %s' % ('OK  ' if good else 'BAD ', id, a.returncode, b.returncode, t, 'kept' if good else 'dropped', res), flush=True)
        if not good:
            print(a.stdout.decode()[-600:], '\n---\n', b.stdout.decode()[-600:])
            shutil.rmtree(d)
        return good
    finally:
        shutil.rmtree(tree, ignore_errors=True)
