#!/opt/venv/bin/python
"""quiet.py [ID...] [--checks P01,P02]: apply the edits of refactors.py (each of them alone if ids are given with --alone, else all together) to a
scratch copy of /repo and run the checks on it; prints every check that is not quiet."""
import os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import refactors, refactors2
VERIF = os.path.dirname(os.path.dirname(HERE))


def main():
    args = sys.argv[1:]
    checks = ['P%02d' % i for i in range(1, 35)]
    if '--checks' in args:
        i = args.index('--checks')
        checks = args[i + 1].split(',')
        del args[i:i + 2]
    rs = [r for r in refactors.R if not args or r['id'] in args]
    top = tempfile.mkdtemp(prefix='quiet_')
    try:
        copy = os.path.join(top, 'repo')
        shutil.copytree(os.environ.get('QUIET_SRC', '/repo'), copy, symlinks=True)
        for r in rs:
            for file, old, new in r['edits']:
                p = os.path.join(copy, file)
                s = open(p).read()
                if s.count(old) != 1:
                    print('EDIT-COUNT %d in %s: %s' % (s.count(old), r['id'], old[:120]))
                    return 2
                open(p, 'w').write(s.replace(old, new))
        for c in checks:
            p = subprocess.run(['bash', os.path.join(VERIF, 'bin/check'), c, 'quick'], env=dict(os.environ, VERIF_REPO=copy), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            out = p.stdout.decode(errors='replace').strip().splitlines()
            print(c, p.returncode, out[-1][:150] if p.returncode == 0 else '\n    '.join([''] + [l[:400] for l in out[-4:]]), flush=True)
    finally:
        shutil.rmtree(top)


sys.exit(main())
