#!/opt/venv/bin/python
"""plant.py [ID...]: confirm the bugs of bugs*.py in scratch copies of /repo and keep the good ones
under /verif/seeded.  Confirmed: applies, touches original lines only, demo quiet before and failing
after, stable tests pass.  Also runs the property's quick check on the changed copy (reported, not
required).  Options: --keep-all (no tests; only demo+check), -j N."""
import glob, importlib.util, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
BASE = '8a8d76e'


def bugs():
    out = []
    for f in sorted(glob.glob(os.path.join(HERE, 'bugs*.py'))):
        spec = importlib.util.spec_from_file_location('b', f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        out += m.BUGS
    assert len({b['id'] for b in out}) == len(out)
    return out


def sh(cmd, cwd, env=None, timeout=1500):
    e = dict(os.environ, **(env or {}))
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors='replace')


def tests(copy):
    base = json.load(open('/opt/vp/BASELINE.json'))
    env = dict(PATH='/opt/venv/bin:' + os.environ['PATH'], PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=copy, PYTHONHASHSEED='0',
               MPLBACKEND='Agg', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1')
    rc, out = sh('/opt/venv/bin/python -m pytest -q -x -p no:cacheprovider --timeout=300 --doctest-modules --deselect sureal/tools/inverse.py::sureal.tools.inverse.inversefunc 2>&1 | tail -3', copy, env)
    last = out.strip().splitlines()[-1]
    ok = ' passed' in last and ' failed' not in last and ' error' not in last
    return ok, out[-400:]


def one(b, notest):
    top = tempfile.mkdtemp(prefix='plant_')
    try:
        copy = os.path.join(top, 'repo')
        sh('cp -a /repo %s' % copy, '/')
        demo = os.path.join(top, 'demo')
        os.mkdir(demo)
        for f in ('lib.py', 'demo.sh'):
            shutil.copy(os.path.join(HERE, f), demo)
        with open(os.path.join(demo, 'demo.py'), 'w') as f:
            f.write(b['demo'].strip() + '\n')
        rc, out = sh('bash %s/demo.sh' % demo, copy, timeout=300)
        if rc != 0:
            return b['id'], 'DEMO-FAILS-CLEAN', out[-600:]
        for file, old, new in b['edits']:
            p = os.path.join(copy, file)
            s = open(p).read()
            if s.count(old) != 1:
                return b['id'], 'EDIT-COUNT %d' % s.count(old), old
            open(p, 'w').write(s.replace(old, new))
        rc, diff = sh('git diff', copy)
        # changed lines original?
        notes = ''
        rc, fixdiff = sh('git diff %s HEAD' % BASE, copy)
        added = {l[1:].strip() for l in fixdiff.splitlines() if l.startswith('+') and not l.startswith('+++')}
        removed = [l[1:].strip() for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
        if any(r in added for r in removed if r):
            notes += ' TOUCHES-FIX-LINES'
        if not removed:
            notes += ' NO-REMOVED-LINE'
        rc, out = sh('bash %s/demo.sh' % demo, copy, timeout=300)
        if rc == 0:
            return b['id'], 'DEMO-PASSES-MUTANT', out[-600:]
        if not notest:
            ok, out = tests(copy)
            if not ok:
                return b['id'], 'TESTS-FAIL', out
        sh('git clean -fdq; find . -name __pycache__ -prune -exec rm -rf {} +', copy)
        ev = os.path.join(top, 'verif')
        sh('mkdir %s && cp -a bin mc checks tools known_findings.json properties.jsonl MANIFEST.json %s/' % (ev, ev), VERIF)
        rc, out = sh('bin/check %s quick' % b['property'], ev, dict(VERIF_REPO=copy, VERIF_SEED='1'))
        caught = rc == 1 and ('VIOLATION property=%s ' % b['property']) in out
        if not notest:
            d = os.path.join(VERIF, 'seeded', b['id'])
            shutil.rmtree(d, True)
            shutil.copytree(demo, d, ignore=shutil.ignore_patterns('__pycache__'))
            open(os.path.join(d, 'patch.diff'), 'w').write(diff)
            json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                      open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        return b['id'], ('CAUGHT' if caught else 'MISSED rc=%d' % rc) + notes, out[-300:]
    except Exception as e:
        return b['id'], 'ERROR %r' % e, ''
    finally:
        shutil.rmtree(top, True)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    notest = '--no-test' in sys.argv
    j = 6
    todo = [b for b in bugs() if not args or b['id'] in args or b['property'] in args]
    if not args and '--all' not in sys.argv:
        todo = [b for b in todo if not os.path.isdir(os.path.join(VERIF, 'seeded', b['id']))]
    with ThreadPoolExecutor(j) as ex:
        for id_, verdict, out in ex.map(lambda b: one(b, notest), todo):
            print(id_, verdict, flush=True)
            if not verdict.startswith('CAUGHT'):
                print('    ' + out.strip().replace('\n', '\n    '), flush=True)


main()
